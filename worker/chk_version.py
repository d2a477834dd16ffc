"""Oracle for the script that asks git for the version."""
import contextlib
import importlib.util
import io
import os
import shutil
import subprocess
import sys
import tempfile

import boot
from lib import Trouble, check, expect, fail, short

SCRIPT = os.path.join(boot.REPO, 'version.py')


def module():
    spec = importlib.util.spec_from_file_location('verif_version', SCRIPT)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def environment(home):
    env = {k: v for k, v in os.environ.items() if not k.startswith('GIT_')}
    env.update(HOME=home, GIT_CONFIG_NOSYSTEM='1', LC_ALL='C',
               GIT_CEILING_DIRECTORIES=os.path.dirname(home),
               GIT_CONFIG_GLOBAL=os.devnull)
    return env


def stream(ops):
    """A fast-import stream, the commits each commit has in its history (the
    last one is HEAD), and (ref, commit number) of the tags"""
    out, last, taken, tags, within = [], 0, set(), [], {}

    def commit(branch, *parents):
        nonlocal last
        last += 1
        lines = ['commit refs/heads/%s' % branch, 'mark :%d' % last,
                 'committer a <a@b> %d +0000' % (10**9 + last), 'data 1',
                 '%d' % (last % 10)]
        lines += ['%s :%d' % (how, p) for how, p in zip(
            ('from', 'merge'), parents)]
        out.append('\n'.join(lines) + '\n')
        within[last] = {last}.union(*(within[p] for p in parents))
        return last
    n = commit('main')
    for op in ops:
        if op[0] == 'commit':
            n = commit('main', n)
            continue
        if op[0] == 'merged':
            # a branch that is merged, with tags on it
            _, prefix, tag, kind, aside, between = op
            name, side = prefix + tag, n
            for _ in range(aside):
                side = commit('side-%d' % len(within), side)
            for _ in range(between):
                n = commit('main', n)
            if name not in taken:
                taken.add(name)
                tags.append((name, side))
                out.append(ref(name, kind, side))
            n = commit('main', n, side)
            continue
        if op[0] in ('tag', 'side'):
            name, kind = op[1] + op[2], op[3]
        else:
            name, kind = op[1], op[2]
        if name in taken:
            continue
        taken.add(name)
        at = n
        if op[0] == 'side':
            at = 1000 + len(taken)
            out.append('commit refs/heads/side-%d\nmark :%d\n'
                       'committer a <a@b> %d +0000\ndata 1\ns\nfrom :%d\n'
                       % (at, at, 10**9 + at, n))
        else:
            tags.append((name, n))
        out.append(ref(name, kind, at))
    return ''.join(out), within, n, tags


def ref(name, kind, at):
    if kind == 'light':
        return 'reset refs/tags/%s\nfrom :%d\n\n' % (name, at)
    return ('tag %s\nfrom :%d\ntagger a <a@b> %d +0000\ndata 1\nx\n'
            % (name, at, 10**9 + at))


def repository(path, text, run):
    subprocess.run(['git', 'init', '-q', path], **run)
    subprocess.run(['git', '-C', path, 'symbolic-ref', 'HEAD',
                    'refs/heads/main'], **run)
    subprocess.run(['git', '-C', path, 'fast-import', '--quiet'],
                   input=text.encode(), **run)


@check('V01.describe')
def _(case, ctx):
    ops, prefix, before, keep, where = case
    text, within, head, tags = stream(ops)
    fitting = [(t, n) for t, n in tags if t.startswith(prefix) and
               t[len(prefix):len(prefix) + 1].isdigit()]
    want_tag = None
    if fitting:
        ctx.mark()
        # the nearest: with the fewest commits that it does not have
        count, want_tag = min((len(within[head] - within[n]), t)
                              for t, n in fitting)
        if sum(len(within[head] - within[n]) == count
               for _, n in fitting) > 1:
            ctx.label('several tags as near')
            return
        if any(op[0] == 'merged' for op in ops):
            ctx.label('merges')
    scratch = tempfile.mkdtemp(prefix='verif-version-')
    old, old_env = os.getcwd(), dict(os.environ)
    try:
        env = environment(scratch)
        os.environ.clear()
        os.environ.update(env)
        repo = os.path.join(scratch, 'repo')
        package = os.path.join(repo, 'golem_messages')
        other = os.path.join(scratch, 'other')
        outside = os.path.join(scratch, 'outside')
        run = dict(check=True, stdout=subprocess.PIPE,
                   stderr=subprocess.PIPE)
        try:
            if where == 'worktree':
                # a second checkout, the first one went on
                repository(other, text, run)
                git = ['git', '-c', 'user.name=x', '-c', 'user.email=x@y',
                       '-C', other]
                for args in (['worktree', 'add', '-q', '--detach', repo,
                              'main'],
                             ['commit', '-q', '--allow-empty', '-m', 'x'],
                             ['tag', prefix + '97.98.99']):
                    subprocess.run(git + args, **run)
            else:
                repository(repo, text, run)
            if where == 'other':
                repository(other, stream([
                    ('tag', prefix, '97.98.99', 'light'), ('commit',)])[0],
                    run)
            for path in (package, outside):
                os.mkdir(path)
            short_id = subprocess.run(
                ['git', '-C', repo, 'rev-parse', '--short', 'HEAD'],
                **run).stdout.decode().strip()
        except (OSError, subprocess.CalledProcessError) as e:
            raise Trouble('git: %r %r' % (
                e, getattr(e, 'stderr', None)))     # not the property's
        os.chdir({'repo': repo, 'worktree': repo, 'relative': repo, 'package': package,
                  'other': other, 'outside': outside}[where])
        ctx.label('asked from: ' + where)
        want = None
        if want_tag is not None:
            want = want_tag[len(prefix):]
            if count:
                want += '+dev%d.g%s' % (count, short_id)
        path = os.path.join(package, 'RELEASE-VERSION')
        content = {'absent': None, 'same': want or '1.2.3', 'stale': '0.0.1',
                   'empty': '', 'newline': (want or '1') + '\n',
                   'longer': (want or '1') + '0'}[before]
        if content is not None:
            with open(path, 'w') as f:
                f.write(content)
        ctx.label(before, 'no tag' if want is None else
                  'after a tag' if count else 'on a tag')
        cwd = {'cwd': package}
        if where == 'relative':
            cwd = {'cwd': 'golem_messages'}
        elif where == 'package':
            cwd = {}
        judge(prefix, package, cwd, keep, path, content, want)
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(old_env)
        shutil.rmtree(scratch, ignore_errors=True)


@check('V01.package')
def _(case, ctx):
    """The package is of the version that is in the file next to it"""
    text = case
    ctx.mark()
    scratch = tempfile.mkdtemp(prefix='verif-version-')
    try:
        package = os.path.join(scratch, 'golem_messages')
        shutil.copytree(os.path.join(boot.REPO, 'golem_messages'), package,
                        ignore=shutil.ignore_patterns(
                            '__pycache__', 'RELEASE-VERSION'))
        with open(os.path.join(package, 'RELEASE-VERSION'), 'w',
                  encoding='utf-8') as f:
            f.write(text)
        spec = importlib.util.spec_from_file_location(
            'golem_messages', os.path.join(package, '__init__.py'),
            submodule_search_locations=[
                os.path.join(boot.REPO, 'golem_messages')])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)      # what is imported is there already
        expect(m.__version__ == text, 'the package is of version %s, should '
               'be %s', short(m.__version__), short(text))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(prefix, package, cwd, keep, path, content, want):
    m = module()
    saved = os.dup(2)
    with open(os.devnull, 'w') as null:
        os.dup2(null.fileno(), 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = m.get_version(prefix=prefix, no_update_version_file=keep,
                                **cwd)
    except Exception as e:
        if want is not None:
            fail('get_version fails with %r, should give %s', e, want)
        got = None
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        sys.stderr.flush()
    if want is None:
        # to fall back on the file, as the comment on top of version.py has
        # it, would be fine, too
        expect(got is None or content and got.strip() == content.strip(),
               'a version without a tag: %s', short(got))
    else:
        expect(got == want, 'the version is %s, should be %s', short(got),
               want)
    after = None
    if os.path.exists(path):
        with open(path) as f:
            after = f.read()
    if want is None or keep:
        expect(after == content, 'the version file has %s, should be %s',
               short(after), short(content))
    else:
        expect(after == want, 'the version file has %s, should be %s',
               short(after), want)
    extra = set(os.listdir(package)) - {'RELEASE-VERSION'}
    expect(not extra, 'leaves %s', extra)
