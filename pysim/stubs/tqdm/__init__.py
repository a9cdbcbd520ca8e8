class tqdm:  # noqa
    def __init__(self, it=None, *a, total=None, **k):
        self.it, self.n, self.total = it, 0, total

    def __iter__(self):
        for x in self.it:
            self.n += 1
            yield x

    def __len__(self):
        return len(self.it)

    def update(self, n=1):
        self.n += n

    def close(self):
        pass

    def set_description(self, *a, **k):
        pass

    set_postfix = set_description

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    @staticmethod
    def write(s, **k):
        print(s)


def trange(*a, **k):
    return tqdm(range(*a), **k)
