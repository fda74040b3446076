"""sleeping lets the others act"""
others_ = []


def sleep(duration):
    for f in others_:
        f(duration)
