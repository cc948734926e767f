"""E03: encoding into buffers of every size."""
import msg
LEVEL = "model_checking"


def run(ctx):
    msg.check_encode(ctx, "caps", (300, 3000), 8)
