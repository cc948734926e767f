"""M03: decoding JSON bodies."""
import msg
LEVEL = "model_checking"


def run(ctx):
    msg.check_decode(ctx, "obj".split(","))
