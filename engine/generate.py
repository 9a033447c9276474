"""Prepares a harness crate that contracts private functions.

The crate's sources are the files of /repo as they are, each with one line added
at its end that declares its module of contracts. Nothing else is changed, so
contracts see private functions and the code verified is the code of /repo.
"""

import json
import os

REPO = "/repo"


def prepare(crate):
    path = os.path.join(crate, "generate.json")
    if not os.path.exists(path):
        return
    with open(path) as file:
        plan = json.load(file)
    for other in plan.get("needs", []):
        prepare(os.path.normpath(os.path.join(crate, other)))
    target = os.path.join(crate, "gen")
    wanted = set()
    files = [(to, os.path.join(REPO, path)) for to, path in plan.get("files", {}).items()]
    for to, path in plan.get("own", {}).items():
        files.append((to, os.path.join(crate, path)))
    if "source" in plan:
        source = os.path.join(REPO, plan["source"])
        for directory, _, names in os.walk(source):
            files += [(os.path.relpath(os.path.join(directory, name), source), os.path.join(directory, name)) for name in names]
    for relative, full in files:
        if os.path.exists(full):
            with open(full, errors="replace") as file:
                text = file.read()
            contracts = plan.get("contracts", {}).get(relative)
            if contracts:
                contracts = os.path.join(crate, contracts)
                text += f'\n#[cfg(any(kani, test))]\n#[path = "{contracts}"]\nmod contracts;\n'
            for old, new in plan.get("replace", {}).get(relative, []):
                text = text.replace(old, new)
            write(os.path.join(target, relative), text)
            wanted.add(relative)
    for directory, _, names in os.walk(target):
        for name in names:
            full = os.path.join(directory, name)
            if os.path.relpath(full, target) not in wanted:
                os.remove(full)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as file:
            if file.read() == text:
                return
    with open(path, "w") as file:
        file.write(text)
