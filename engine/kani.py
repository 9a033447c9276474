"""Runs Kani harnesses: contracts of functions compiled from /repo.

Kani compiles the harness crate (and through a path dependency the crate in
/repo) to a goto program per harness. This module then drives CBMC itself and
reads its plain text report, because the driver that ships with Kani silently
drops results whose counterexample it cannot parse.

Every harness ends in one of these states:

  proved     every obligation was discharged, and every cover point reached
  failed     an obligation was refuted, with a counterexample
  undecided  anything else: unsupported construct reached, unwinding bound too
             small, time out, cover point not reached, build failure
"""

import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import generate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = sorted(glob.glob("/root/.kani/kani-*"))[-1]
ENV = dict(os.environ)
ENV["PATH"] = f"{KANI}/bin:" + ENV.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
for name in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
    ENV.pop(name, None)

CBMC = [
    "cbmc",
    "--no-malloc-may-fail",
    "--no-undefined-shift-check",
    "--no-signed-overflow-check",
    "--no-self-loops-to-assumptions",
    "--no-pointer-primitive-check",
    "--object-bits",
    "16",
    "--slice-formula",
]
DEFAULT_UNWIND = 12
MEMORY = 12 << 30


class Timeout(Exception):
    pass


def run(command, timeout, cwd=None):
    def limit():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))

    process = subprocess.Popen(
        command,
        cwd=cwd,
        env=ENV,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        preexec_fn=limit,
        text=True,
        errors="replace",
    )
    try:
        output, _ = process.communicate(timeout=max(timeout, 1))
    except subprocess.TimeoutExpired:
        os.killpg(process.pid, signal.SIGKILL)
        process.communicate()
        raise Timeout()
    return process.returncode, output


def build(crate, target, timeout, extra=()):
    """Compiles a harness crate. Returns (harnesses, log); harnesses is None on failure."""
    shutil.rmtree(os.path.join(target, "kani", "x86_64-unknown-linux-gnu", "debug", "build"), ignore_errors=True)
    process = subprocess.run(
        ["cargo", "kani", "--only-codegen", "--target-dir", target, "-Z", "stubbing", "-Z", "c-ffi", *extra],
        cwd=crate,
        env=ENV,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        errors="replace",
        timeout=timeout,
    )
    if process.returncode != 0:
        return None, process.stdout
    harnesses = {}
    for path in glob.glob(os.path.join(target, "kani", "**", "*.kani-metadata.json"), recursive=True):
        with open(path) as file:
            for harness in json.load(file)["proof_harnesses"]:
                harnesses[harness["pretty_name"]] = harness
    return harnesses, process.stdout


CHECK_ID = re.compile(r"\[?(KANI_CHECK_ID_[^\]\s:]+::[^\]\s:]+)\]?")


def parse(output):
    """Reads CBMC's text report into a list of obligations."""
    obligations = []
    place = ""
    start = output.find("** Results:")
    pending = None
    for line in output[start:].splitlines():
        if pending is None:
            if not line.startswith("["):
                if re.match(r"^\S.* function .+$", line):
                    place = line
                continue
            pending = line
        else:
            # The text of an obligation may span lines.
            pending += " " + line.strip()
        match = re.match(r"^\[(?:(.*?)\.)?([\w\-]+)(?:\.(\d+))?\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", pending)
        if not match:
            continue
        pending = None
        function, category, number, row, text, status = match.groups()
        check = CHECK_ID.search(text)
        obligations.append(
            {
                "id": f"{function}.{category}.{number}" if function else f"{category}.{number}",
                "category": category,
                "text": CHECK_ID.sub("", text).strip().strip('"'),
                "check": check.group(1) if check else None,
                "status": status,
                "place": place,
                "line": row,
            }
        )
    total = re.search(r"^\*\* \d+ of (\d+) failed", output[start:], re.M)
    if not total or int(total.group(1)) != len(obligations):
        raise RuntimeError(f"the verifier reported {total and total.group(1)} results and {len(obligations)} were read")
    return obligations


def judge(obligations):
    """Decides a harness from its obligations, as Kani does."""
    reach = {
        o["check"]: o["status"] == "FAILURE" for o in obligations if o["category"] == "reachability_check"
    }
    counts = {"obligations": 0, "discharged": 0, "covers": 0, "covered": 0}
    failed, unsupported, unwind, other, uncovered = [], [], [], [], []
    for o in obligations:
        category, status = o["category"], o["status"]
        if category == "reachability_check":
            continue
        if category == "cover":
            counts["covers"] += 1
            if status == "FAILURE":
                counts["covered"] += 1
            else:
                uncovered.append(o)
            continue
        counts["obligations"] += 1
        if status == "SUCCESS":
            counts["discharged"] += 1
        elif status != "FAILURE":
            other.append(o)
        elif category == "unwind" or "unwinding assertion" in o["text"] or category == "recursion":
            unwind.append(o)
        elif category in ("unsupported_construct", "no-body") or "not currently supported by Kani" in o["text"] or "undefined function should be unreachable" in o["text"]:
            unsupported.append(o)
        elif category in ("NaN", "reachability"):
            counts["discharged"] += 1
        else:
            failed.append(o)
    if counts["obligations"] == 0:
        return "undecided", "the verifier generated no obligation", counts, []
    if unsupported:
        return "undecided", "unsupported construct reached: " + unsupported[0]["text"][:200], counts, failed
    if failed:
        return "failed", failed[0]["text"], counts, failed
    if unwind:
        return "undecided", "unwinding bound too small: " + unwind[0]["id"], counts, []
    if other:
        return "undecided", "no verdict for " + other[0]["id"], counts, []
    if counts["covers"] == 0:
        return "undecided", "no cover point", counts, []
    if uncovered:
        return "undecided", "cover point not reached (vacuous): " + uncovered[0]["text"], counts, []
    return "proved", "", counts, []


FORMATTING = re.compile(
    r"^(std|core)::fmt::(Formatter|write$|builders|num|PostPadding|Debug|pointer)| as std::fmt::(Debug|Display|Write|LowerHex|UpperHex|LowerExp)>::"
)


def formatting(goto, timeout):
    """The functions that only turn values into text for messages."""
    _, output = run(["goto-instrument", "--list-goto-functions", goto], timeout)
    names = []
    for line in output.splitlines():
        match = re.match(r"^(.*) /\* (\S+) \*/$", line)
        if match and FORMATTING.search(match.group(1)):
            names.append(match.group(2))
    return names


def link(harness, directory, timeout, strip):
    """The steps between Kani's compiler and CBMC, as Kani's driver runs them.

    Stripping removes the bodies of formatting functions, which are otherwise
    candidates of many calls through function pointers. Reaching one of them is
    then an obligation that fails, so that stripping decides nothing wrongly.
    """
    goto = os.path.join(directory, re.sub(r"\W+", "_", harness["pretty_name"]) + ".goto")
    symtab = harness["goto_file"]
    for command in (
        ["goto-cc", symtab, f"{KANI}/library/kani/kani_lib.c", "-o", goto],
        ["goto-cc", goto, "--function", harness["mangled_name"], "-o", goto],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", goto, goto],
        [
            "goto-instrument",
            "--generate-function-body-options",
            "assert-false-assume-false",
            "--generate-function-body",
            ".*",
            "--drop-unused-functions",
            goto,
            goto,
        ],
        ["goto-instrument", "--ensure-one-backedge-per-target", goto, goto],
    ):
        if strip and "--generate-function-body" in command:
            removals = [word for name in formatting(goto, timeout) for word in ("--remove-function-body", name)]
            if removals:
                code, output = run(["goto-instrument", *removals, goto, goto], timeout)
                if code != 0:
                    raise RuntimeError(f"goto-instrument failed: {output[-500:]}")
        code, output = run(command, timeout)
        if code != 0:
            raise RuntimeError(f"{command[0]} failed: {output[-500:]}")
    return goto


def trace(goto, obligation, flags, timeout):
    """The counterexample of an obligation as CBMC prints it, or None."""
    try:
        # A sliced formula would leave out inputs that the trace needs.
        cbmc = [flag for flag in CBMC if flag != "--slice-formula"]
        _, output = run([*cbmc, *flags, "--property", obligation["id"], "--trace", goto], timeout)
    except Timeout:
        return None
    start = output.find("Trace for")
    return output[start:] if start >= 0 else None


def inputs(text):
    """The values that a harness received in a trace, in order, as bytes in hexadecimal."""
    values = []
    for line in text.splitlines():
        match = re.match(r"^\s*goto_symex\$\$return_value\$\$\S*any_raw_(?:internal|array)\S*?=.* \(([01 ,{}]+)\)$", line)
        if not match:
            continue
        for group in match.group(1).strip("{} ").split(","):
            octets = [int(bits, 2) for bits in group.split()]
            values.append("".join(f"{octet:02x}" for octet in reversed(octets)))
    return values


def verify(harness, directory, timeout, want_trace=True):
    start = time.time()
    result = {"harness": harness["pretty_name"], "engine": "kani+cbmc"}
    attributes = harness["attributes"]
    unwind = attributes.get("unwind_value") or DEFAULT_UNWIND
    solver = attributes.get("solver")
    solver = (solver if isinstance(solver, str) else None) or "cadical"
    try:
        strip, widened = True, False
        goto = link(harness, directory, timeout, strip)
        for attempt in range(4):
            flags = ["--unwind", str(unwind), "--sat-solver" if solver.lower() != "kissat" else "--external-sat-solver", solver.lower()]
            code, output = run([*CBMC, *flags, goto], timeout - (time.time() - start))
            finished = "** Results:" in output and re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", output, re.M)
            obligations = parse(output) if finished else []
            if not finished:
                status, reason, counts, failed = "undecided", "the verifier did not finish: " + output[-200:], {"obligations": 0, "discharged": 0, "covers": 0, "covered": 0}, []
            else:
                status, reason, counts, failed = judge(obligations)
            if status == "undecided" and reason.startswith("unwinding bound") and not widened:
                unwind, widened = 3 * unwind, True
                continue
            if status == "undecided" and reason.startswith("unsupported") and strip:
                strip = False
                goto = link(harness, directory, timeout, strip)
                continue
            break
        result.update(status=status, reason=reason, unwind=unwind, solver_s=round(sum(map(float, re.findall(r"^Runtime Solver: ([\d.e\-+]+)s", output, re.M))), 3), **counts)
        if status == "failed":
            result["failed"] = [
                {"obligation": o["id"], "text": o["text"], "place": o["place"], "line": o["line"]} for o in failed[:20]
            ]
            if want_trace:
                text = trace(goto, failed[0], flags, min(120, timeout))
                if text:
                    result["trace"] = text[:20000]
                    result["inputs"] = inputs(text)
    except Timeout:
        result.update(status="undecided", reason="timed out", obligations=0, discharged=0, covers=0, covered=0)
    except Exception as error:  # a tool that crashed decides nothing
        result.update(status="undecided", reason=f"tool failure: {error}", obligations=0, discharged=0, covers=0, covered=0)
    result["wall_s"] = round(time.time() - start, 2)
    if os.environ.get("VERBOSE"):
        print(result["harness"], result["status"], result["reason"], result["wall_s"], file=sys.stderr, flush=True)
    return result


def matches(name, patterns):
    return any(re.fullmatch(pattern, name) for pattern in patterns)


def check(crate, patterns, directory, timeout, jobs=8, exclude=(), extra=(), cap=None):
    """Verifies every harness of a crate whose name matches. Returns (results, log)."""
    target = os.path.join(directory, "target")
    os.makedirs(target, exist_ok=True)
    start = time.time()
    generate.prepare(os.path.abspath(crate))
    try:
        harnesses, log = build(crate, target, timeout, extra)
    except subprocess.TimeoutExpired:
        harnesses, log = None, "build timed out"
    if harnesses is None:
        return None, log
    selected = [h for n, h in sorted(harnesses.items()) if matches(n, patterns) and not matches(n, exclude)]
    left = timeout - (time.time() - start)
    gotos = os.path.join(directory, "goto")
    os.makedirs(gotos, exist_ok=True)
    deadline = time.time() + left
    with ThreadPoolExecutor(jobs) as pool:
        results = list(
            pool.map(lambda h: verify(h, gotos, max(5, min(cap or timeout, deadline - time.time()))), selected)
        )
    return results, log


if __name__ == "__main__":
    crate = sys.argv[1]
    results, log = check(crate, sys.argv[2:] or [".*"], f"/tmp/kt/run-{os.path.basename(crate)}", 3000, cap=int(os.environ.get("CAP", "0")) or None)
    if results is None:
        print(log[-6000:])
        sys.exit(2)
    for r in results:
        print(r["status"], r["harness"], r["wall_s"], r["obligations"], r["discharged"], f'{r["covered"]}/{r["covers"]}', r.get("unwind"), r["reason"])
        for f in r.get("failed", []):
            print("    ", f)
