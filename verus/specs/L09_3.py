from L09 import make


def spec(repo):
    return make(repo, 3)
