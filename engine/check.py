#!/usr/bin/env python3
"""Decides one property of /repo's current tree.

    check.py <property> [--tier quick|thorough]

The verdict comes from the contracts listed in props.py:

  1. every obligation of the property's contracts goes to its verifier;
  2. a refuted obligation is a violation; its counterexample is replayed on the
     compiled code, and where the replay does not fail, the compiled code is run
     on other inputs to find one that does;
  3. an obligation that no verifier decides (code outside a verifier's reach)
     is reported as not discharged, and only the bounded native run covers it.
"""

import json
import os
import re
import signal
import subprocess
import sys
import time

import generate
import kani
import penvc
from props import PROPERTIES

VERIF = kani.VERIF
REPO = "/repo"


def log(*words):
    print(*words, flush=True)


def native_environment(target):
    environment = dict(kani.ENV)
    environment["CARGO_TARGET_DIR"] = target
    environment["RUST_BACKTRACE"] = "0"
    environment.setdefault("VERIF_SEED", "1")
    return environment


def execute(command, cwd, environment, timeout):
    process = subprocess.Popen(
        command,
        cwd=cwd,
        env=environment,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        errors="replace",
        start_new_session=True,
    )
    try:
        output, _ = process.communicate(timeout=timeout)
        return process.returncode, output
    except subprocess.TimeoutExpired:
        os.killpg(process.pid, signal.SIGKILL)
        output, _ = process.communicate()
        return None, output or ""


class Native:
    """The harnesses and witnesses of a crate, run as tests of the compiled code."""

    def __init__(self, crate, directory):
        self.crate = os.path.join(VERIF, "harness", crate)
        self.target = os.path.join(directory, "native-" + crate)
        self.environment = native_environment(self.target)
        self.binary = None
        self.log = ""

    def build(self, timeout):
        generate.prepare(self.crate)
        code, output = execute(
            ["cargo", "test", "--no-run", "--lib", "--message-format=json"], self.crate, self.environment, timeout
        )
        self.log = output
        if code != 0:
            return False
        for line in output.splitlines():
            if line.startswith("{"):
                message = json.loads(line)
                if message.get("executable") and message.get("profile", {}).get("test"):
                    self.binary = message["executable"]
        return self.binary is not None

    def run(self, filters, timeout, exact=False, **variables):
        """Returns (failed test or None, output)."""
        environment = dict(self.environment, **variables)
        command = [self.binary, "--nocapture", "--test-threads=1", *filters]
        if exact:
            command.append("--exact")
        code, output = execute(command, self.crate, environment, timeout)
        if code == 0:
            return None, output
        names = re.findall(r"^test (\S+) \.\.\.", output, re.M)
        failed = re.findall(r"^test (\S+) \.\.\. (?:(?!^test ).)*?FAILED$", output, re.M | re.S)
        name = failed[0] if failed and code == 101 else names[-1] if names else "?"
        if code is None:
            output += f"\nTIMED OUT after {timeout} s in {name}: the code does not come to an end\n"
        return name, output


def excerpt(output, limit=6000):
    lines = [line for line in output.splitlines() if not re.match(r"^test \S+ \.\.\. (NATIVE-RUNS.*|ok)?$|^ok$|^NATIVE-RUNS", line)]
    return "\n".join(lines)[-limit:]


def write_replay(identifier, content):
    directory = os.path.join(VERIF, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{identifier}.txt")
    with open(path, "w") as file:
        file.write(content)
    return path


def main():
    identifier = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 820 if tier == "quick" else 6 * 3600
    start = time.time()
    prop = PROPERTIES[identifier]
    directory = os.path.join(VERIF, ".build", identifier)
    os.makedirs(directory, exist_ok=True)

    def left(share=1.0):
        return max(10, (budget - (time.time() - start)) * share)

    violations, notes, results, natives = [], [], [], []
    built = {}

    def native(crate):
        if crate not in built:
            built[crate] = Native(crate, directory)
            if not built[crate].build(left(0.5)):
                notes.append(f"{crate} did not build natively: {excerpt(built[crate].log, 1500)}")
        return built[crate]

    # 1. The verifiers.
    for crate, patterns, thorough in prop.get("kani", []):
        exclude = [] if tier == "thorough" else thorough
        found, output = kani.check(
            os.path.join(VERIF, "harness", crate),
            patterns,
            os.path.join(directory, "kani-" + crate),
            left(0.8),
            exclude=exclude,
            cap=left(0.8) if tier == "thorough" else 300,
        )
        if found is None:
            notes.append(f"the contracts of {crate} did not compile: {output[-1500:]}")
            continue
        if not found:
            notes.append(f"no contract of {crate} matched")
        results += found
        for result in found:
            result["crate"] = crate
            log(f"  {result['status']:9} {result['harness']} ({result['discharged']}/{result['obligations']} obligations, {result['wall_s']} s) {result['reason']}")
    if prop.get("pen"):
        dump = os.path.join(directory, "modules.json")
        if os.path.exists(dump):
            os.remove(dump)
        runner = native("compiler")
        if runner.binary:
            _, output = runner.run(["dump::modules_are_written_down"], left(0.2), exact=True, PEN_DUMP=dump)
        if not os.path.exists(dump):
            notes.append("the compiler did not write down the modules under contract" + (": " + excerpt(output, 1500) if runner.binary else ""))
        else:
            for name, only in prop["pen"]:
                found = penvc.check(dump, os.path.join(VERIF, "harness", "pen", name + ".py"), only, left(0.6), tier)
                results += found
                for result in found:
                    log(f"  {result['status']:9} {result['harness']} ({result['discharged']}/{result['obligations']} obligations, {result['wall_s']} s) {result['reason']}")

    # 2. Counterexamples, on the compiled code.
    refuted = [result for result in results if result["status"] == "failed"]
    for result in refuted:
        text = f"property: {identifier} {prop['title']}\nfailed contract: {result['harness']} ({result['engine']})\n"
        for item in result.get("failed", []):
            text += f"failed obligation: {item['obligation']}: {item['text']} ({item['place']} line {item['line']})\n"
        if result["engine"].startswith("penvc"):
            text += (
                f"  cd {VERIF}/harness/compiler && PEN_DUMP=/tmp/modules.json cargo test --lib dump && cd {VERIF} && "
                f"python3 engine/penvc.py /tmp/modules.json harness/pen/{result['harness'].split('::')[0]}.py\n"
            )
        confirmed = None
        if result.get("inputs") is not None and result["engine"].startswith("kani"):
            runner = native(result["crate"])
            name = "::native_".join(result["harness"].rsplit("::", 1))
            if runner.binary:
                values = ",".join(result["inputs"])
                failed, output = runner.run([name], min(60, left()), exact=True, VERIF_INPUT=values)
                if failed and "running 1 test" in output:
                    confirmed = name
                    text += (
                        f"\nThe counterexample fails on the compiled code:\n  cd {runner.crate} && VERIF_INPUT={values} "
                        f"cargo test --lib -- --nocapture --exact {name}\n\n{excerpt(output)}\n"
                    )
        if not confirmed:
            text += "\nThe counterexample was not replayed on the compiled code.\n"
        violations.append((confirmed is not None, text, result))

    # 3. The compiled code on other inputs.
    if not any(confirmed for confirmed, _, _ in violations):
        for crate, filters in prop.get("native", []):
            runner = native(crate)
            if not runner.binary:
                continue
            rounds = "2000" if tier == "quick" else "100000"
            limit = min(prop.get("native_timeout", 150), left()) if tier == "quick" else left()
            failed, output = runner.run(filters, limit, VERIF_ROUNDS=rounds, VERIF_SEED=str(seed), VERIF_TIER=tier)
            runs = re.findall(r"NATIVE-RUNS (\S+) (\d+) of (\d+)", output)
            natives += [{"harness": name, "runs": int(accepted), "tried": int(tried)} for name, accepted, tried in runs]
            passed = re.findall(r"^test result: ok\. (\d+) passed", output, re.M)
            histories = [name for name in re.findall(r"^test (\S+) \.\.\. ok", output, re.M)]
            natives += [{"harness": name, "runs": 1, "tried": 1} for name in histories]
            if failed is None and (not passed or passed[0] == "0"):
                notes.append(f"nothing ran natively in {crate}")
            if failed is not None and failed != "?":
                input_ = re.findall(r"FAILING-INPUT (\S+) (\S*)", output)
                text = (
                    f"property: {identifier} {prop['title']}\nfailing on the compiled code: {failed}\n"
                    + (f"failing input: {input_[-1][1]}\n" if input_ else "")
                    + f"  cd {runner.crate} && "
                    + (f"VERIF_INPUT={input_[-1][1]} " if input_ else "")
                    + f"cargo test --lib -- --nocapture --exact {failed}\n\n{excerpt(output)}\n"
                )
                violations.append((True, text, None))
                break

    proved = [result for result in results if result["status"] == "proved" and "bounded" not in result["harness"]]
    bounded = [result for result in results if result["status"] == "proved" and "bounded" in result["harness"]]
    undecided = [result for result in results if result["status"] == "undecided"]
    coverage = {
        "obligations": sum(r["obligations"] for r in results if r["status"] != "undecided" and "bounded" not in r["harness"]),
        "discharged": sum(r["discharged"] for r in results if r["status"] != "undecided" and "bounded" not in r["harness"]),
        "checker_cmd": f"python3 engine/check.py {identifier} --tier {tier}",
        "trusted_base": prop.get("trusted", []) + (COMMON_TRUST if prop.get("kani") else ["rustc"]) + (PEN_TRUST if prop.get("pen") else []),
        "functions_under_contract": prop.get("functions", []),
        "contracts_proved": [summary(r) for r in proved],
        "contracts_bounded": [summary(r) for r in bounded],
        "contracts_undecided": [summary(r) for r in undecided],
        "contracts_refuted": [summary(r) for r in refuted],
        "back_ends": sorted({r["engine"] for r in results}),
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 3),
        "vacuity_covers_reached": sum(r.get("covered", 0) for r in results),
        "native_runs": natives,
        "evaluations": sum(n["runs"] for n in natives),
        "notes": notes,
    }
    if prop.get("level", "proof") == "other":
        coverage["explanation"] = (
            (
                "Part of the contracts is proved, as listed; the rest is checked on the compiled code within the bounds stated. "
                if proved
                else "Contracts checked on the compiled code within the bounds stated; nothing here is counted as proved. "
            )
            + prop["design"]
        )
    evidence = {
        "property": identifier,
        "tier": tier,
        "seed": seed,
        "level": prop.get("level", "proof"),
        "coverage": coverage,
        "assumptions": prop.get("assumptions", []) + [f"not decided in this run: {r['harness']}: {r['reason']}" for r in undecided],
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", identifier + ".json"), "w") as file:
        json.dump(evidence, file, indent=1)
        file.write("\n")

    for note in notes:
        log("  note:", note)
    for finding in known_findings(identifier):
        log(f"KNOWN-FINDING: property={identifier} {finding}")
    if not violations:
        log(
            f"OK property={identifier} contracts={len(proved)} bounded={len(bounded)} undecided={len(undecided)} "
            f"obligations={coverage['obligations']} native_runs={coverage['evaluations']} wall={evidence['wall_s']}s"
        )
        return 0
    confirmed = any(c for c, _, _ in violations)
    text = "\n\n".join(text for _, text, _ in sorted(violations, key=lambda v: not v[0]))
    for _, _, result in violations:
        if result and result.get("trace"):
            text += f"\n\nverifier's counterexample for {result['harness']}:\n{result['trace'][:20000]}"
        elif result and result.get("output"):
            text += f"\n\nverifier's output for {result['harness']}:\n{result['output'][:20000]}"
    path = write_replay(identifier, text + "\n")
    log(text[:3000])
    log(f"VIOLATION property={identifier} replay={path}" + ("" if confirmed else " no-failing-input-found"))
    return 1


COMMON_TRUST = [
    "rustc and Kani's translation of MIR to goto programs; CBMC 6 and CaDiCaL",
    "Kani's models of the allocator and of compiler intrinsics",
]


PEN_TRUST = [
    "engine/penvc.py, which makes obligations of the compiler's intermediate code, and Z3 or cvc5, whichever answers first",
    "the compiler's front end, whose output is what is verified, and its type checker, by which variants are of the types declared",
]


def summary(result):
    fields = ("harness", "engine", "assumed", "inlined", "solvers", "obligations", "discharged", "covered", "solver_s", "wall_s", "unwind", "reason")
    return {key: result[key] for key in fields if key in result and result[key] != ""}


def known_findings(identifier):
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return []
    with open(path) as file:
        return [
            line.strip().split(" ", 2)[2]
            for line in file
            if line.startswith(f"finding: property={identifier} ")
        ]


if __name__ == "__main__":
    sys.exit(main())
