"""E01: encoding of message bodies in every format."""
import msg
LEVEL = "model_checking"


def run(ctx):
    msg.check_encode(ctx, "body", (350, 3500), 24)
