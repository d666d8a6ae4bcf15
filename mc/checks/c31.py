"""C31: code templates are instantiated faithfully and never touch the original."""
import contextlib
import io
import os
import shutil
import stat
import tempfile
import typing as tp
from pathlib import Path

import numpy as np
from nevergrad.parametrization import FolderFunction, utils
from nevergrad.parametrization import instantiate as inst
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario

RULE = (
    "an execution writes one template (all sequences of pieces of text, of placeholders, of malformed or duplicated placeholders, of annotated lines and of line terminations up to a length), or one folder (explored files, "
    "links and subfolders), instantiates it for explored values, destinations and spellings of the paths, with an input/output operation failing at each possible point or a command behaving in each explored way; "
    "the copy is compared to an independent parser, and the original folder (content, types, permissions) to its state before. A state is the content of the original and of the copy."
)
ASSUMPTIONS = [
    "files of the copy which hold no placeholder are symbolic links, as documented: a command writing through them is not covered",
    "everything happens in a scratch folder, which is also the folder of temporary files and the working directory",
]

TOKEN = "@nevergrad" + "@"
ARG = "NG_" + "ARG"
COMMENTS = {".c": "//", ".h": "//", ".cpp": "//", ".hpp": "//", ".py": "#", ".m": "%", ".sh": "#", ".star": "*"}


@contextlib.contextmanager
def scratch() -> tp.Iterator[Path]:
    """Scratch folder in which temporary files are written too, deep enough for escapes through .. to remain inside"""
    path = Path(tempfile.mkdtemp(prefix="mc_c31_"))
    saved = tempfile.tempdir, os.getcwd(), dict(inst.COMMENT_CHARS)
    (path / "deep" / "tmp").mkdir(parents=True)
    (path / "deep" / "witness.py").write_text("witness")
    tempfile.tempdir = str(path / "deep" / "tmp")
    try:
        yield path
    finally:
        tempfile.tempdir = saved[0]
        os.chdir(saved[1])
        inst.COMMENT_CHARS.clear()
        inst.COMMENT_CHARS.update(saved[2])
        shutil.rmtree(path)


def snapshot(folder: Path) -> tp.Dict[str, tp.Any]:
    out: tp.Dict[str, tp.Any] = {}
    for root, dirs, files in os.walk(folder):
        for name in dirs + files:
            fp = Path(root) / name
            st = os.lstat(fp)
            content: tp.Any = os.readlink(fp) if fp.is_symlink() else (fp.read_bytes() if fp.is_file() else None)
            out[str(fp.relative_to(folder))] = (stat.S_IFMT(st.st_mode), st.st_mode & 0o777, content)
    return out


def intact(folder: Path, before: tp.Dict[str, tp.Any], what: str) -> None:
    now = snapshot(folder)
    diff = {x for x in set(now) | set(before) if now.get(x) != before.get(x)}
    check(not diff, f"the original was modified ({sorted(diff)[:4]}): {what}", key="original")


# independent parser


def parse(text: str) -> tp.List[tp.Any]:
    """pieces of text and (name, comment)"""
    out: tp.List[tp.Any] = []
    k = 0
    while k < len(text):
        start = text.find(ARG + "{", k)
        if start < 0:
            break
        j = start + len(ARG) + 1
        name = ""
        while j < len(text) and (text[j].isalnum() or text[j] == "_"):
            name += text[j]
            j += 1
        comment: tp.Optional[str] = None
        good = bool(name) and j < len(text) and text[j] in "|}"
        if good and text[j] == "|":
            end = text.find("}", j + 2)  # at least one character
            newline = text.find("\n", j)
            good = end > 0 and not 0 <= newline < end
            comment, j = text[j + 1 : end], end
        if not good:
            out.append(text[k : start + 1])
            k = start + 1
            continue
        out.append(text[k:start])
        out.append((name, comment))
        k = j + 1
    out.append(text[k:])
    return out


def text_of(value: tp.Any, ext: str) -> str:
    if isinstance(value, np.ndarray):
        out = repr(value.tolist())
        return out.replace("[", "{").replace("]", "}") if ext in (".c", ".h", ".cpp", ".hpp") else out
    return repr(value)


def uncommented(line: str, ext: str) -> tp.Optional[str]:
    """None if refused"""
    if TOKEN not in line:
        return line
    indent = len(line) - len(line.lstrip(" "))
    rest = line[indent:]
    mark = COMMENTS[ext]
    if not rest.startswith(mark):
        return None
    rest = rest[len(mark) :].lstrip(" ")
    if not rest.startswith(TOKEN):
        return None
    rest = rest[len(TOKEN) :].lstrip(" ")
    return None if TOKEN in rest else " " * indent + rest


def expected_text(text: str, ext: str, values: tp.Dict[str, tp.Any]) -> tp.Any:
    """expected text, or the reason of the refusal"""
    lines = [uncommented(line, ext) for line in text.split("\n")]
    if any(line is None for line in lines):
        return ("annotation",)
    pieces = parse("\n".join(tp.cast(tp.List[str], lines)))
    names = [x[0] for x in pieces if isinstance(x, tuple)]
    if len(set(names)) < len(names):
        return ("duplicate",)
    if set(names) != set(values):
        return ("names", tuple(sorted(names)))
    return "".join(x if isinstance(x, str) else text_of(values[x[0]], ext) for x in pieces)


VALUES: tp.List[tp.Any] = [12, -0.5, "it's", "\\1\\g<0>", f"{ARG}{{y}}", np.array([[1, 2], [3, 4]]), np.array([0.5]), None, True, [1, "a"]]

PIECES = ["a", f"{ARG}{{x}}", f"{ARG}{{y|some text}}", f"{ARG}{{x|d}}", f"{ARG}{{}}", f"{ARG}{{z w}}", ARG, "}", "|", "\n", "{"]


def texts(ch: Chooser, length: int) -> None:
    """All small texts: placeholders and replacement"""
    text = ""
    for _ in range(length):
        piece = ch.choose(PIECES + [""], "piece")
        if not piece:
            break
        text += piece
    ext = ch.choose([".py", ".c"], "extension")
    names = sorted({x[0] for x in parse(text) if isinstance(x, tuple)})
    found = inst.Placeholder.finditer(text)
    exp = [x for x in parse(text) if isinstance(x, tuple)]
    check([(p.name, p.comment) for p in found] == exp, f"placeholders {found} instead of {exp} in {text!r}", key="placeholders")
    values = {n: VALUES[(k + len(text)) % len(VALUES)] for k, n in enumerate(names)}
    case = ch.choose(["exact", "missing", "additional"], "values")
    if case == "missing":
        if not names:
            return
        del values[names[0]]
    elif case == "additional":
        values["other"] = 1
    target = expected_text(text, ext, values)
    try:
        got: tp.Any = inst.Placeholder.sub(text, ext, dict(values))
    except (RuntimeError, KeyError):
        got = None
    if isinstance(target, tuple):
        check(got is None, f"{text!r} with {values} gives {got!r} although it must be refused ({target})", key="refusal")
    else:
        check(got == target, f"{text!r} with {values} gives {got!r} instead of {target!r}", key="text")
    ch.state((text, ext, case))


def values(ch: Chooser) -> None:
    ext = ch.choose([".py", ".c", ".h", ".cpp", ".hpp", ".m"], "extension")
    first, second = ch.choose(VALUES, "first"), ch.choose(VALUES, "second")
    text = f"u = {ARG}{{x}};\nv = [{ARG}{{y|comment}}, \\1]; // {{x}}"
    got = inst.Placeholder.sub(text, ext, {"x": first, "y": second})
    target = expected_text(text, ext, {"x": first, "y": second})
    check(got == target, f"{got!r} instead of {target!r}", key="values")
    ch.state((ext, str(first), str(second)))


def annotations(ch: Chooser) -> None:
    """All annotated lines"""
    inst.COMMENT_CHARS.pop(".star", None)
    ext = ch.choose([".py", ".c", ".m", ".star"], "extension")
    saved = dict(inst.COMMENT_CHARS)
    if ext == ".star":
        FolderFunction.register_file_type(ch.choose(["star", ".star"], "name"), "*")
    try:
        line = ch.choose(["", "  ", "\t", "x "], "indent") + ch.choose([COMMENTS[ext], "", "!", COMMENTS[ext] * 2], "mark") + ch.choose(["", " ", "   "], "space") + ch.choose([TOKEN, "", TOKEN[:-1]], "token")
        line += ch.choose(["", "  "], "space") + ch.choose(["x = 1", "", f"x = 1 {COMMENTS[ext]} {TOKEN} y", f"{COMMENTS[ext]} x"], "code")
        target = uncommented(line, ext)
        try:
            got: tp.Optional[str] = inst.uncomment_line(line, ext) if TOKEN in line else line
        except RuntimeError:
            got = None
        check(got == target, f"{line!r} gives {got!r} instead of {target!r} ({ext})", key="annotation")
    finally:
        inst.COMMENT_CHARS.clear()
        inst.COMMENT_CHARS.update(saved)
    ch.state((ext, line))


def files(ch: Chooser, length: int) -> None:
    """All small files, instantiated within a folder"""
    ext = ch.choose([".py", ".c", ".CPP", ".m"], "extension")
    mark = COMMENTS[ext.lower()]
    lines = [f"a = {ARG}{{x|array}}", f"  {mark} {TOKEN} b = {ARG}{{y}}  ", f"b = 2\x0cc = 3\x0b\u2028 {mark} text", f"{mark} {ARG}{{y|z}}", "", f"  {mark}{TOKEN}d\x1c = 3", f"x {mark} {TOKEN} e"]
    text = ""
    for _ in range(length):
        k = ch.choose(range(len(lines) + 1), "line")
        if k == len(lines):
            break
        text += lines[k] + ch.choose(["\n", "\r\n", ""], "termination")
    vals = {"x": np.array([[1.5, 2.0]]), "y": "text"}
    with scratch() as path:
        folder = path / "project"
        folder.mkdir()
        fp = folder / f"code{ext}"
        fp.write_bytes(text.encode())
        mode = ch.choose([0o644, 0o755], "permissions")
        fp.chmod(mode)
        before = snapshot(folder)
        target = expected_text(text, ext.lower(), vals)
        if isinstance(target, tuple) and target[0] == "names" and target[1]:
            vals = {n: vals[n] for n in target[1]}
            target = expected_text(text, ext.lower(), vals)
        try:
            instantiator = inst.FolderInstantiator(folder)
            with instantiator.instantiate(**vals) as copy:
                got: tp.Any = (copy / fp.name).read_bytes().decode()
                now = (copy / fp.name).stat().st_mode & 0o777
            check(not copy.exists(), "the copy remains", key="remains")
        except (RuntimeError, AssertionError):
            got, now = None, mode
        intact(folder, before, repr(text))
        if isinstance(target, tuple):
            check(got is None, f"{text!r} gives {got!r} although it must be refused ({target})", key="refusal")
        else:
            check(got == target, f"{text!r} ({ext}) gives {got!r} instead of {target!r}", key="text")
            check(now == mode, f"permissions {oct(now)} instead of {oct(mode)}", key="permissions")
        ch.state((ext, text, mode))


def build_folder(ch: Chooser, path: Path) -> tp.Tuple[Path, tp.Dict[str, tp.Any], bool]:
    """folder, names of the placeholders -> value, and whether it is valid"""
    folder = path / "work" / "project"
    (folder / "sub" / "subsub").mkdir(parents=True)
    (folder / "main.py").write_text(f"a = {ARG}{{a}}\n")
    (folder / "data.txt").write_text(f"data {ARG}{{a}} {TOKEN}")
    (folder / "sub" / "data.bin").write_bytes(bytes(range(256)))
    names = {"a": 1.5}
    valid = True
    extra = ch.choose(["none", "second", "duplicate", "link", "broken link", "deep", "empty"], "content")
    if extra == "second":
        (folder / "sub" / "two.c").write_text(f"b = {ARG}{{b}};")
        names["b"] = 2.5
    elif extra == "duplicate":
        (folder / "sub" / "two.c").write_text(f"b = {ARG}{{a|again}};")
        valid = False
    elif extra == "link":  # link to a template out of the folder
        (path / "work" / "outside.py").write_text(f"b = {ARG}{{b}}")
        (folder / "sub" / "linked.py").symlink_to(path / "work" / "outside.py")
        names["b"] = 2.5
    elif extra == "broken link":
        (folder / "sub" / "broken").symlink_to(path / "work" / "nothing")
    elif extra == "deep":
        (folder / "sub" / "subsub" / "deep.h").write_text(f"b = {ARG}{{b|with comment}};\n")
        names["b"] = 2.5
    elif extra == "empty":
        (folder / "main.py").write_text("a = 1\n")
        valid = False
    return folder, names, valid


def compare_copy(folder: Path, copy: Path, names: tp.Dict[str, tp.Any], what: str) -> None:
    check(copy.is_dir(), f"no copy {copy}: {what}", key="copy")
    seen = set()
    for root, dirs, fnames in os.walk(folder):
        for name in dirs + fnames:
            fp = Path(root) / name
            rel = fp.relative_to(folder)
            seen.add(str(rel))
            target = copy / rel
            if fp.is_dir():
                check(target.is_dir(), f"{rel} is not a folder in the copy: {what}", key="copy")
            elif not fp.exists():
                check(os.path.islink(target), f"link {rel} is missing: {what}", key="copy")
            elif fp.suffix in COMMENTS:
                text = fp.read_text()
                used = {x[0] for x in parse(text) if isinstance(x, tuple)}
                exp = expected_text(text, fp.suffix, {x: names[x] for x in used})
                check(target.read_text() == exp, f"{rel}: {target.read_text()!r} instead of {exp!r}: {what}", key="text")
                check(not used or not target.is_symlink(), f"template {rel} is a link: {what}", key="link")
            else:
                check(target.read_bytes() == fp.read_bytes(), f"{rel} differs: {what}", key="copy")
    return None


def folders(ch: Chooser) -> None:
    with scratch() as path:
        folder, names, valid = build_folder(ch, path)
        clean = not (folder / "sub" / "broken").is_symlink() and ch.flag("clean copy")  # full copies follow links
        spelling = ch.choose(["absolute", "relative", ".", "..", "sub/..", "link"], "spelling")
        arg: tp.Union[str, Path] = folder
        if spelling == "relative":
            os.chdir(folder.parent)
            arg = "project"
        elif spelling == ".":
            os.chdir(folder)
            arg = "."
        elif spelling == "..":
            os.chdir(folder / "sub")
            arg = ch.choose(["..", Path("..")], "type")
        elif spelling == "sub/..":
            arg = folder / "sub" / ".."
        elif spelling == "link":
            (path / "alias").symlink_to(folder)
            arg = path / "alias"
        before = snapshot(path / "work")
        witness = snapshot(path / "deep")
        what = f"{ch_desc(arg, clean)} {sorted(names)}"
        try:
            instantiator = inst.FolderInstantiator(arg, clean_copy=clean)
        except (RuntimeError, AssertionError) as e:
            check(not valid, f"folder refused: {e!r}, {what}", key="refused")
            intact(path / "work", before, what)
            ch.state(("refused", what))
            return
        check(valid, f"a folder with duplicate or no placeholder was accepted: {what}", key="accepted")
        check(sorted(p.name for p in instantiator.placeholders) == sorted(names), f"placeholders {instantiator.placeholders}: {what}", key="placeholders")
        case = ch.choose(["exact", "missing", "unknown", "failing", "again"], "values")
        vals = dict(names)
        if case == "missing":
            del vals["a"]
        elif case == "unknown":
            vals["unknown"] = 3
        elif case == "again":
            with instantiator.instantiate(**{x: "other" for x in names}):
                pass
        try:
            with instantiator.instantiate(**vals) as copy:
                check(case in ("exact", "failing", "again"), f"values {vals} were accepted: {what}", key="accepted")
                expected_name = {"link": "alias"}.get(spelling, "project")
                check(copy.name == expected_name, f"the copy is {copy.name} instead of {expected_name}: {what}", key="name")
                compare_copy(folder, copy, names, what)
                for fp in list(copy.glob("**/*")):  # what a build would remove
                    if ch_remove(case) and (fp.is_file() or fp.is_symlink()):
                        fp.unlink()
                if case == "failing":
                    raise KeyError("failing body")
        except (AssertionError, KeyError):
            check(case in ("missing", "unknown", "failing"), f"values {vals} were refused: {what}", key="refused")
        intact(path / "work", before, what)
        del instantiator
        after = snapshot(path / "deep")
        check(after == witness, f"temporary files remain: {sorted(set(after) ^ set(witness))[:3]}: {what}", key="remains")
        ch.state((what, case))


def ch_desc(arg: tp.Any, clean: bool) -> str:
    return f"folder given as {Path(arg).name!r}{' (clean copy)' if clean else ''}"


def ch_remove(case: str) -> bool:
    return case in ("exact", "failing")


def destinations(ch: Chooser) -> None:
    with scratch() as path:
        folder, names, valid = build_folder(ch, path)
        if not valid:
            return
        instantiator = inst.FolderInstantiator(folder)
        out = path / "out"
        where = ch.choose(["new", "string", "parents", "existing", "same", "same with ..", "same through link", "inside", "relative"], "destination")
        allowed = True
        dest: tp.Union[str, Path] = out
        if where == "string":
            dest = str(out)
        elif where == "parents":
            dest = out = out / "one" / "two"
        elif where == "existing":
            out.mkdir()
            (out / "main.py").write_text("old")
            (out / "other.txt").write_text("kept")
        elif where == "same":
            dest, allowed = folder, False
        elif where == "same with ..":
            dest, allowed = folder / "sub" / "..", False
        elif where == "same through link":
            (path / "alias").symlink_to(folder)
            dest, allowed = path / "alias", False
        elif where == "inside":
            dest, allowed = folder / "sub" / "copy", False
        elif where == "relative":
            os.chdir(path)
            dest = "out"
        before = snapshot(path / "work")
        what = f"destination {where}"
        try:
            instantiator.instantiate_to_folder(dest, dict(names))
            done = True
        except (AssertionError, OSError, RecursionError) as e:
            done = False
            check(not allowed, f"{what} refused: {e!r}", key="refused")
        intact(path / "work", before, what)
        check(done == allowed, f"{what}: instantiated {done}", key="accepted")
        if done:
            compare_copy(folder, out, names, what)
            if where == "existing":
                check((out / "other.txt").read_text() == "kept", "existing file lost", key="existing")
            instantiator.instantiate_to_folder(dest, {x: "second" for x in names})
            compare_copy(folder, out, {x: "second" for x in names}, what + ", twice")
            intact(path / "work", before, what)
        ch.state((where, tuple(sorted(names)), done))


class Faults:
    """The operation number "at" fails"""

    def __init__(self, at: int) -> None:
        self.at = at
        self.count = 0

    def wrap(self, fn: tp.Any) -> tp.Any:
        def wrapped(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            self.count += 1
            if self.count == self.at:
                raise OSError("no space left on device")
            return fn(*args, **kwargs)

        return wrapped

    @contextlib.contextmanager
    def installed(self) -> tp.Iterator[None]:
        targets = [(os, "remove"), (Path, "symlink_to"), (Path, "mkdir"), (Path, "open")]
        saved = [getattr(*t) for t in targets]
        try:
            for t, fn in zip(targets, saved):
                setattr(*t, self.wrap(fn))
            yield
        finally:
            for t, fn in zip(targets, saved):
                setattr(*t, fn)


def faults(ch: Chooser, points: int) -> None:
    with scratch() as path:
        folder, names, valid = build_folder(ch, path)
        if not valid:
            return
        instantiator = inst.FolderInstantiator(folder)
        before, witness = snapshot(path / "work"), snapshot(path / "deep")
        at = ch.choose(range(1, points + 1), "failing operation")
        fault = Faults(at)
        reached = False
        try:
            with fault.installed():
                with instantiator.instantiate(**names) as copy:
                    reached = fault.count >= fault.at
                    fault.at = 0
                    if not reached:
                        compare_copy(folder, copy, names, "no failure")
        except OSError:
            pass
        check(not reached, f"the failure of operation {at} was ignored", key="ignored")
        intact(path / "work", before, f"failure of operation {at}")
        check(snapshot(path / "deep") == witness, f"temporary files remain after the failure of operation {at}", key="remains")
        with instantiator.instantiate(**names) as copy:
            compare_copy(folder, copy, names, f"after the failure of operation {at}")
        ch.state((at, reached, tuple(names)))


SCRIPTS = {
    "value": "echo start\necho 3.25",
    "blank end": "echo 3.25\necho\necho '  '",
    "indented": "echo '   3.25'",
    "error": "echo 1.0\necho wrong >&2\nexit 3",
    "errors without failure": "echo problem >&2\necho 3.25",
    "nothing": "true",
    "blank": "echo\necho",
    "text": "echo 3.25\necho end",
    "many errors": "head -c 300000 /dev/zero | tr '\\0' e >&2\necho 3.25",
    "many errors and failure": "head -c 300000 /dev/zero | tr '\\0' e >&2\nexit 1",
    "many lines": "i=0; while [ $i -lt 3000 ]; do echo line $i; i=$((i+1)); done; echo 3.25",
    "no last termination": "printf 'a\\n3.25'",
    "removes its folder": "rm -rf project\necho 3.25",
    "creates files": "echo x > project/new.txt; mkdir project/newdir; echo 3.25",
    "replaces a link": "rm project/data.txt; echo x > project/data.txt; echo 3.25",
}
RESULTS: tp.Dict[str, tp.Any] = {"error": "failed", "nothing": "no output", "blank": "no output", "text": "not a float", "many errors and failure": "failed"}


def commands(ch: Chooser, names: tp.List[str]) -> None:
    case = ch.choose(names, "script")
    clean, verbose = ch.flag("clean copy"), ch.flag("verbose")
    with scratch() as path:
        FolderFunction.register_file_type("sh", "#")
        folder = path / "work" / "project"
        folder.mkdir(parents=True)
        (folder / "data.txt").write_text("data")
        (folder / "run.sh").write_text(f"{SCRIPTS[case]}\n" if case != "value" else f"echo start\n  # {TOKEN} echo {ARG}{{x}}\n")
        if case != "value":
            (folder / "unused.sh").write_text(f"{ARG}{{x}}")
        before, witness = snapshot(path / "work"), snapshot(path / "deep")
        # a blocked command is interrupted
        func = FolderFunction(folder, ["timeout", "-s", "KILL", "20", "sh", "project/run.sh"], verbose=verbose, clean_copy=clean)
        for _ in range(2):
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    got: tp.Any = func(x=3.25)
                except utils.FailedJobError as e:
                    got = "failed"
                    if case == "error":
                        check("wrong" in str(e), f"message {e!r}", key="message")
                except ValueError as e:
                    got = "no output" if "No output" in str(e) else "not a float"
            check(got == RESULTS.get(case, 3.25), f"{case}: {got!r} instead of {RESULTS.get(case, 3.25)!r}", key=f"command:{case}")
            intact(path / "work", before, f"command: {case}")
        if case == "value":
            func.verbose = False
            check(func.last_full_output == "start\n3.25", f"full output {func.last_full_output!r}", key="output")
            func.postprocessings.append(lambda x: 2 * x)
            check(func(x=1.25) == 2.5, "postprocessings", key="postprocessings")
        del func
        check(snapshot(path / "deep") == witness, f"temporary files remain: {case}", key="remains")
        ch.state((case, clean, verbose))


def arguments(ch: Chooser) -> None:
    args = [ch.choose([1, "a b", "", 2.5, "$HOME"], "arg") for _ in range(ch.choose([0, 1, 2], "number"))]
    kwargs = {x: ch.choose([None, 3, "c d"], x) for x in ("k", "l")}
    kwargs = {x: y for x, y in kwargs.items() if y is not None}
    func = utils.CommandFunction(["sh", "-c", 'for x in "$@"; do echo "<$x>"; done', "name"])
    out = func(*args, **kwargs)
    exp = [f"<{x}>" for x in args] + [f"<--{x}={y}>" for x, y in kwargs.items()]
    check(out.splitlines() == exp, f"{out!r} instead of {exp}", key="arguments")
    check(func.command[-1] == "name", "the command was modified", key="command")
    ch.state((tuple(map(str, args)), tuple(sorted(kwargs))))


def clean_copies(ch: Chooser) -> None:
    with scratch() as path:
        folder, _, _ = build_folder(ch, path)
        spelling = ch.choose(["absolute", ".", "..", "string", "slash"], "spelling")
        arg: tp.Union[str, Path] = folder
        if spelling == ".":
            os.chdir(folder)
            arg = "."
        elif spelling == "..":
            os.chdir(folder / "sub")
            arg = ".."
        elif spelling in ("string", "slash"):
            arg = str(folder) + ("/" if spelling == "slash" else "")
        if (folder / "sub" / "broken").is_symlink():
            return  # full copies follow links
        before = snapshot(path / "work")
        where = ch.choose(["default", "variable", "explicit"], "where")
        base = path / "deep" / "tmp"
        kwargs: tp.Dict[str, tp.Any] = {}
        saved = os.environ.pop(utils.TemporaryDirectoryCopy.key, None)
        try:
            if where != "default":
                base = path / "elsewhere"
                base.mkdir()
                if where == "variable":
                    utils.TemporaryDirectoryCopy.set_clean_copy_environment_variable(base)
                else:
                    kwargs["dir"] = base
            fail = ch.flag("failing body")
            try:
                with utils.TemporaryDirectoryCopy(arg, **kwargs) as copy:
                    check(copy.name == "project" and base in copy.parents, f"copy {copy}", key="name")
                    check({x: y[2] for x, y in snapshot(folder).items() if not os.path.islink(folder / x)} == {x: y[2] for x, y in snapshot(copy).items() if not os.path.islink(folder / x)}, "the copy differs", key="copy")
                    (copy / "main.py").write_text("changed")
                    (copy / "sub" / "data.bin").unlink()
                    if fail:
                        raise KeyError("body")
            except KeyError:
                pass
            check(not list(base.iterdir()), "the copy remains", key="remains")
            intact(path / "work", before, "clean copy")
        finally:
            os.environ.pop(utils.TemporaryDirectoryCopy.key, None)
            if saved is not None:
                os.environ[utils.TemporaryDirectoryCopy.key] = saved
        ch.state((spelling, where, fail))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier != "quick"
    names = sorted(SCRIPTS)
    return {
        "texts": Scenario(texts, [dict(length=5 if deep else 4)]),
        "values": Scenario(values, [{}]),
        "annotations": Scenario(annotations, [{}]),
        "files": Scenario(files, [dict(length=k) for k in ((1, 2, 3) if deep else (1, 2))]),
        "folders": Scenario(folders, [{}]),
        "destinations": Scenario(destinations, [{}]),
        "faults": Scenario(faults, [dict(points=30)]),
        "commands": Scenario(commands, [dict(names=names[k::5]) for k in range(5)]),
        "arguments": Scenario(arguments, [{}]),
        "clean_copies": Scenario(clean_copies, [{}]),
    }
