"""Progress bars are transparent."""


def tqdm(iterable=None, *args, **kwargs):
    return iterable


def trange(*args, **kwargs):
    return range(*args)
