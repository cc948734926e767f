"""E02: the envelope of encoded messages: headers, lengths, checksums, offsets, responses, errors."""
import msg
LEVEL = "model_checking"


def run(ctx):
    msg.check_encode(ctx, "frame", (350, 3500), 24)
