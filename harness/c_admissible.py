"""All equations of the model on one dispatch (monitors of C01..C04 together)."""
from checks import c01, c02, c03, c04


def judge(ctx, spec, d):
    c01.judge(ctx, spec, d)
    c02.judge(ctx, spec, d)
    c03.judge(ctx, spec, d)
    c04.judge(ctx, spec, d)
