"""Support for the demonstration beside it: a private FIDOGATE installation in
a scratch directory, driven with the programs built in the current directory."""
import os, sys, glob, shutil, subprocess, tempfile, atexit, re, struct, time
from collections import namedtuple
REPO = os.getcwd()
