"""P02: what a file parser returns for a stream."""
import parse
LEVEL = "model_checking"


def run(ctx):
    parse.check(ctx, True, (60, 900), 6)
