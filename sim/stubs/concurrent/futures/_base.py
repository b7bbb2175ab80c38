from concurrent.futures import *
