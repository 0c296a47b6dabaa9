"""C13, see nullprops.py"""
from rules import nullprops


def run(ctx):
    return nullprops.run(ctx, 'C13')
