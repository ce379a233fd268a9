from checks import channel

def run(ctx):
    channel.run(ctx, True)
