"""M01: decoding binary bodies."""
import msg
LEVEL = "model_checking"


def run(ctx):
    msg.check_decode(ctx, "bin".split(","))
