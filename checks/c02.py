import c01


def check(ctx):
    c01.run(ctx, True)
