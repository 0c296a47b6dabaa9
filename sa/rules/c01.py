"""C01, see nullprops.py"""
from rules import nullprops


def run(ctx):
    return nullprops.run(ctx, 'C01')
