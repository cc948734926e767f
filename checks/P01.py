"""P01: what a parser returns for a stream of bytes."""
import parse
LEVEL = "model_checking"


def run(ctx):
    parse.check(ctx, False, (60, 900), 6)
