#!/usr/bin/env python3
"""Mutation testing, that is restricted to changes, which the repository's own tests for the changed file do not detect.

    survivors.py OUT.jsonl [--per-file N] [--jobs N] [--seed N] [--tests-only] [FILE…]

Works on copies of /repo and /verif in a scratch directory, that it removes. Entries of OUT: result "tests" (detected by the tests), "killed <check>", "survived".
"""
import argparse, json, multiprocessing, os, queue, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import CHECKS, VERIF, mutants      # noqa: E402

SIGNAL = "test_signal test_spectrogram test_energy_decay test_signal_convolution"
TESTS = [("_blocks/_concatenate", "test_concatenate"), ("_blocks/_merge", "test_merge"), ("_blocks/_jack", ""),
         ("_data/_filters/_bands", "test_bands test_filter_persistence test_filter"), ("_data/_filters/_bessel", "test_bessel"),
         ("_data/_filters/_butterworth", "test_butterworth"), ("_data/_filters/_cheb", "test_chebyshev"), ("_data/_filters/_delay", "test_delay"),
         ("_data/_filters/_deriv", "test_derivative"), ("_data/_filters/_weight", "test_weighting"),
         ("_data/_filters/_base/_iir", "test_butterworth test_chebyshev test_bessel"),
         ("_data/_filters/_base", "test_terms test_weighting test_bands test_delay test_derivative test_butterworth test_filter_persistence test_filter"),
         ("_data/_sampled", "test_spectrum test_signal test_spectrogram"), ("_data/_signals/_signal", SIGNAL), ("_data/_signals/_constant", "test_constant test_fade"),
         ("_data/_signals/_energy", "test_energy_decay"), ("_data/_signals/_fade", "test_fade"), ("_data/_signals/_mls", "test_mls"),
         ("_data/_signals/_noise", "test_noise"), ("_data/_signals/_sweep", "test_linear_sweep test_exponential_sweep"), ("_data/_signals/_waves", "test_waves"),
         ("_data/_signals/_windows", "test_windows"), ("_data/_spectrograms/_constant", "test_constant"), ("_data/_spectrograms/_spec", "test_spectrogram test_signal"),
         ("_data/_spectrums/_constant", "test_constant"), ("_data/_spectrums/_rudin", "test_rudinshapiro"), ("_data/_spectrums/_spec", "test_spectrum test_spectrogram"),
         ("_internal/_convolution", "test_signal_convolution"), ("_internal/_functions", "test_functions test_windows test_signal"),
         ("_internal/_indexing", "test_functions test_signal test_fade"), ("_internal/_interpolation", "test_interpolation test_bands"),
         ("_internal/_text", "test_exponential_sweep"), ("_internal/_enums", "test_bands test_windows test_infrastructure"),
         ("_internal/_persistence/_filter", "test_filter_persistence"), ("_internal/_persistence/_signal", "test_signal_persistence"),
         ("_internal/_persistence/_spectrum", "test_spectrum_persistence"), ("_internal/_persistence/_spectrogram", "test_spectrogram"),
         ("_internal/_persistence", "test_spectrum_persistence test_filter_persistence test_signal_persistence")]


def run_tests(repo, file):
    names = next(t for prefix, t in TESTS if file.startswith(prefix)).split()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp/plugin", MPLBACKEND="Agg", HOME="/root",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1")
    for n in ["test_infrastructure"] + names:
        files = subprocess.run(["find", repo + "/tests/tests", "-name", n + ".py"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "sumpf_hypothesis", "--rootdir=" + repo, "-W", "ignore",
                                "--timeout=180", *DESELECT, *[os.path.relpath(f, repo) for f in files]], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode != 0:
            return False
    return True


def unstable():
    """command line arguments for leaving out the tests, that do not pass reliably"""
    with open("/opt/vp/BASELINE.json") as f:
        stable = {x.split("[")[0] for x in json.load(f)["stable"]}
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "--collect-only", "-q", "-p", "no:cacheprovider", "--rootdir=/repo", "tests/tests"], cwd="/repo",
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, text=True, check=False)
    result = []
    for line in r.stdout.splitlines():
        if "::" in line:
            path, name = line.split("[")[0].split("::", 1)
            if path[:-3].replace("/", ".") + "::" + name not in stable:
                result.extend(("--deselect", f"{path}::{name}"))
    return result


DESELECT = unstable() + ["--deselect", "tests/tests/_data/_signals/test_signal_convolution.py::test_correlate_with_single_channel"]   # (depends on the processor)


def work(jobs, out, base, number, only):
    repo = os.path.join(base, f"r{number}")
    verif = os.path.join(base, f"v{number}")
    shutil.copytree("/repo", repo, symlinks=True)
    shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    while True:
        try:
            file, line, what, source, checks = jobs.get(timeout=5)
        except queue.Empty:
            return
        path = os.path.join(repo, "sumpf", file)
        with open(path) as f:
            original = f.read()
        with open(path, "w") as f:
            f.write(source)
        result = "survived"
        if not run_tests(repo, file):
            result = "tests"
        elif not only:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", VERIF_TIER="quick")
            for c in checks:
                try:
                    r = subprocess.run([os.path.join(verif, "check.sh"), c], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    result = "timeout " + c
                    break
                if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                    result = "killed " + c
                    break
                if r.returncode != 0:
                    result = f"error {c} {r.returncode} " + r.stdout[-300:]
                    break
        with open(path, "w") as f:
            f.write(original)
        out.put({"file": file, "line": line, "what": what, "result": result})


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--per-file", type=int, default=40)
    parser.add_argument("--jobs", type=int, default=7)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--tests-only", action="store_true")
    parser.add_argument("files", nargs="*")
    args = parser.parse_args()
    random.seed(args.seed)
    done = set()
    if os.path.exists(args.out):
        with open(args.out) as f:
            done = {(e["file"], e["line"], e["what"]) for e in map(json.loads, f)}
    jobs, out = multiprocessing.Queue(), multiprocessing.Queue()
    selected = []
    for file in args.files or sorted(CHECKS):
        with open(os.path.join("/repo/sumpf", file)) as f:
            m = [(line, what, s) for line, what, s in mutants(f.read()) if (file, line, what) not in done]
        for line, what, s in random.sample(m, min(args.per_file, len(m))):
            checks = CHECKS[file].split()
            selected.append((file, line, what, s, checks + (["C24"] if file.startswith(("_data", "_blocks")) and "C24" not in checks and "jack" not in file else [])))
    random.shuffle(selected)
    for s in selected:
        jobs.put(s)
    base = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    try:
        if run_tests("/repo", "_data/_sampled_data.py") is False:
            print("the tests fail for the unchanged tree")
        workers = [multiprocessing.Process(target=work, args=(jobs, out, base, i, args.tests_only)) for i in range(args.jobs)]
        for w in workers:
            w.start()
        with open(args.out, "a") as f:
            for _ in selected:
                f.write(json.dumps(out.get()) + "\n")
                f.flush()
        for w in workers:
            w.join()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
