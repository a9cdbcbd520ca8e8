from tqdm import tqdm, trange  # noqa
