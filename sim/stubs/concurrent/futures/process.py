from concurrent.futures import BrokenProcessPool, ProcessPoolExecutor
