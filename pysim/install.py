"""Puts the simulator's seams in place in this interpreter."""
import sys, threading
import kernel

_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    import argparse, gzip, json, glob, shutil, pathlib, tempfile, random, logging, itertools, collections, functools, hashlib, subprocess  # noqa
    import numpy, yaml, urllib.parse, datetime  # noqa
    threading.stack_size(16 * 1024 * 1024)
    logging.disable(logging.CRITICAL)
    kernel.install_files()
    kernel.install_time()
