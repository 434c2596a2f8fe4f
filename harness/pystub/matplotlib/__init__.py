"""Stand-in for matplotlib: records the calls it gets and writes no file."""
def use(*a, **k):
    pass
