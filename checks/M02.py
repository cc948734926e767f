"""M02: decoding text bodies."""
import msg
LEVEL = "model_checking"


def run(ctx):
    msg.check_decode(ctx, "asc,abb".split(","))
