"""Checks a scenario asks for by name (sc["expect"]), where the general oracles do not know what is special about it."""
import os

from . import programs
from .plan import item_bytes, split_lines, dec
from .programs import gen_data


def job_of(j, e, key="job"):
    n = e.get(key, 0)
    return j.w.jobs[n] if n < len(j.w.jobs) else None


def e_within(j, e):
    """Jobs that have nothing to do with the slow ones end in their own time."""
    if j.k.fired.get("time_jump"):
        return
    for job in j.w.jobs:
        lim = job.spec.get("within")
        if lim is None or not job.started:
            continue
        t1 = getattr(job, "t1", None)
        t = (t1 if t1 is not None else j.k.now) - job.t0
        if t > lim:
            j.bad(e["props"], "late", "took %.1f simulated seconds, held up by another pipeline" % t, job)


def e_released(j, e):
    """Nothing is left of what nobody reads any more."""
    for job in j.w.jobs:
        if job.end is None or "final_alive" not in job.info:
            continue
        if job.info["final_alive"]:
            j.bad("C26", "not-released", "nobody reads the output any more (%s), but %s still runs" % (
                job.info.get("exc") or "broken off", job.info["final_alive"]), job)
        elif job.info["final_running"]:
            j.bad("C26", "never-ends", "all of it has ended, but it still counts as running", job)


def e_once(j, e):
    """Each program of a pipeline that was entered is executed once."""
    if j.w.aborted is not None:
        return
    ran = {}
    for i in j.k.insts:
        ran[i.label] = ran.get(i.label, 0) + 1
    quiet = not any(n in j.k.fired for n in ("tty_int", "tty_tstp", "kill_kid"))
    again = {}
    for job in j.w.jobs:
        if job.spec["p"]["t"] == "ref" and job.end is not None and job.exc is None:
            again[job.spec["p"]["id"]] = again.get(job.spec["p"]["id"], 0) + 1
    for key, n in again.items():
        label = j.w.sc["shared"][key]["l"]
        if quiet and ran.get(label, 0) != n:
            j.bad("C28", "once", "%s was entered %d times and executed %d times" % (label, n, ran.get(label, 0)))
    for job in j.w.jobs:
        if not job.started or "ctl" in job.spec:
            continue
        for label in j.w.shown_labels(job.spec["p"]):
            n = ran.get(label, 0)
            if n > 1:
                j.bad("C28", "once", "%s was executed %d times" % (label, n), job)
            elif n == 0 and quiet and job.end is not None and not label.startswith("nx") and job.exc is None:
                j.bad("C28", "once", "%s was never executed" % label, job)
        if job.mode == "repr" and job.exc is None and job.end is not None:
            if job.out != "":
                j.bad("C28", "once", "entering the pipeline gave %r" % (job.out,), job)
            late = [] if not quiet else [i.label for i in j.k.insts if i.job == job.n and (i.end_step is None or i.end_step > job.end)]
            if late:
                j.bad("C28", "once", "the prompt was there before %s had ended" % late, job)


def e_files(j, e):
    if j.w.aborted is not None:
        return
    k = j.k
    for f in e["files"]:
        if "failed" in f:
            job = j.w.jobs[f["failed"]] if f["failed"] < len(j.w.jobs) else None
            if job is None or job.end is None:
                continue
            if f.get("iffault") and not any(x.startswith("kid:") for x in k.fired):
                continue
            ran = [i for i in k.insts if i.label == f["noexec"]]
            if ran:
                j.bad("C09", "ran-anyway", "%s was executed although its redirections could not be made; it has %s"
                      % (f["noexec"], ran[0].fds), job)
            elif job.info.get("exc") != "PipelineFailed":
                j.bad("C09", "not-failed", "a redirection could not be made, but the pipeline ended with %s" % (
                    job.info.get("exc") or "success"), job)
            continue
        if f.get("none"):
            continue
        if "disk" in f:
            job = j.w.jobs[f["disk"]]
            if job.end is not None and any(":fread:" in x or ":fwrite:" in x for x in k.fired) \
                    and job.info.get("exc") != "PipelineFailed":
                j.bad("C09", "not-failed", "the disk failed under a redirected stage, but the pipeline ended with %s" % (
                    job.info.get("exc") or "success"), job)
            continue
        if "parts" in f:
            node = k.fs.get(f["path"])
            if node is None:
                j.bad("C09", "file-missing", "%s was not created" % f["path"])
            elif f["parts"] is not None:
                from .judge import shuffled
                if not shuffled(bytes(node.data), [x.encode("latin1") for x in f["parts"]], True):
                    j.bad("C09", "file-data", "%s does not hold what both members appended" % f["path"])
            continue
        if "items" in f:
            data = b"".join(b + b"\n" for b in map(item_bytes, f["items"]) if b is not None)
        else:
            data = gen_data(f["data"])
        if "reader" in f:
            i = [i for i in k.insts if i.label == f["reader"]]
            if i and i[0].status is not None:
                got = bytes(i[0].read.get(0, b""))
                if got != data and not (not got and 0 not in i[0].eof):
                    j.bad("C09", "file-read", "%s read %d bytes from its redirected input, the file has %d" % (
                        f["reader"], len(got), len(data)))
            continue
        if "fnlines" in f:
            r = [r for r in j.w.fn_rec if r and r["label"] == f["fnlines"]]
            job = j.w.jobs[f["job"]] if f["job"] < len(j.w.jobs) else None
            if job is None or job.end is None:
                continue
            want = [dec(x) for x in split_lines(data)]
            if not r or r[0]["end"] is None or (r[0]["lines"] != want and None not in want):
                j.bad("C09", "file-lines", "%s saw %s of the %d lines of its redirected input (%s)" % (
                    f["fnlines"], len(r[0]["lines"]) if r else "none", len(want), job.info.get("exc")), job)
            continue
        node = k.fs.get(f["path"])
        if node is None:
            j.bad("C09", "file-missing", "%s was not created" % f["path"])
            continue
        want = data
        if "over" in f:
            want = data + gen_data(f["over"])[len(data):]
        if "pre" in f:
            want = gen_data(f["pre"]) + data
        if bytes(node.data) != want:
            from .judge import diff
            j.bad("C09", "file-data", "%s: %s" % (f["path"], diff(bytes(node.data), want)))
        if "mode" in f and node.mode != f["mode"]:
            j.bad("C09", "file-mode", "%s has permissions %o, declared %o" % (f["path"], node.mode, f["mode"]))


def e_childfail(j, e):
    """A child that did not become its program shows up as a failed process."""
    w = j.w
    for job in w.jobs:
        for c in w.procs_of(job):
            if c.inst is None and c.state in ("dead", "zombie") and c.status == 0:
                j.bad("C11", "silent-failure", "child #%d never became the requested program, but ended with status 0"
                      % c.serial, job)
        if w.aborted is None and job.info.get("exc") is None and job.mode not in ("bg",) and job.end is not None:
            bad = [c.serial for c in w.procs_of(job) if c.inst is None and c.state == "dead"]
            if bad:
                j.bad("C11", "unreported", "children %s never became the requested programs, but the pipeline was "
                      "reported as success" % bad, job)


def e_stopped(j, e):
    """Suspending stops everything unfinished at once, and whoever waits is told."""
    for o in j.w.obs.get("ops", ()):
        if o["op"] != "suspend":
            continue
        job = j.w.jobs[o["job"]]
        on = [s for s, st in o["after"] if st not in ("stop", "dead", "zombie", "dying")]
        if on:
            j.bad("C12", "not-stopped", "suspend left processes %s running" % on, job)
            return
        if "told" in o and not all(o["told"]) and any(st == "stop" for s, st in o["states"]):
            j.bad("C12", "not-told", "the pipeline was suspended, but its waiting caller was not told", job)
            return
    for job in j.w.jobs:
        for v in job.waits:
            if v["exc"] == "PipelineSuspended" and "states" in v:
                on = [st for st in v["states"] if st not in ("stop", "dead", "zombie", "dying")]
                if on:
                    j.bad("C12", "not-stopped", "reported as suspended with programs %s" % v["states"], job)
                    return
    for o in j.w.obs.get("ops", ()):
        if o["op"] == "restart":
            off = [s for s, st in o["after"] if st == "stop"]
            if off:
                j.bad("C12", "not-continued", "restart left processes %s stopped" % off, j.w.jobs[o["job"]])
                return


def running_long(j, job, ev):
    """The pipeline was still at work well after the event: the shell has had every opportunity to see it."""
    ends = []
    for c in j.w.procs_of(job):
        if c.state not in ("zombie", "dead"):
            return True
        ends.append(getattr(c, "exit_calls", 0))
    return bool(ends) and max(ends) > ev["calls"] + 150


def e_tstp(j, e):
    if j.w.aborted is not None:
        return
    for ev in j.w.obs.get("tty", ()):
        if ev["sig"] != 20 or ev["fg"] is None:
            continue
        job = j.w.jobs[ev["fg"]]
        if not ev["alive"] or job.end is None:
            continue
        if job.mode == "repr" and ev["step"] < job.end and job.info.get("was_suspended"):
            continue
        later = [v for v in job.waits if v["step"] > ev["step"]]
        if not later or later[0]["exc"] == "PipelineSuspended":
            continue
        if running_long(j, job, ev):
            j.bad("C12", "not-suspended", "suspended by the user at step %d while running, but the caller got %s" % (
                ev["step"], later[0]["exc"] or "success"), job)
            return


def e_interrupt(j, e):
    for job in j.w.jobs:
        for v in job.waits:
            if v["exc"] == "PipelineInterrupted" and "stop" in v.get("states", ()):
                j.bad("C22", "stopped", "interrupted, and left with stopped programs, which nobody will continue: %s"
                      % v["states"], job)
                return
    for ev in j.w.obs.get("tty", ()):
        if ev["sig"] != 2 or ev["fg"] is None:
            continue
        job = j.w.jobs[ev["fg"]]
        fg = job.spec.get("ctl") == "fg"
        if not (ev["base_alive"] if fg else ev["alive"]) or job.end is None:
            continue
        if job.mode == "repr":
            # the interactive prompt: it says so itself
            if job.info.get("exc") not in (None, "PipelineFailed"):
                j.bad("C22", "prompt-raised", "interrupted at the prompt, %s came out" % job.info.get("exc"), job)
                return
            continue
        if job.info.get("exc") == "PipelineInterrupted":
            v = job.waits[-1] if job.waits else {}
            if job.items is None:
                j.bad("C22", "no-pipeline", "the interrupted error carries no running pipeline", job)
                return
            if not v.get("same", True):
                j.bad("C22", "other-pipeline", "the interrupted error carries another pipeline", job)
                return
            continue
        if running_long(j, j.w.jobs[0] if fg else job, ev) or job.info.get("exc") not in (
                None, "PipelineFailed", "PipelineInterrupted"):
            j.bad("C22", "not-interrupted", "interrupted by the user at step %d while running, but the caller got %s" % (
                ev["step"], job.info.get("exc") or "success"), job)
            return
    if j.w.aborted is None:
        for job in j.w.jobs:
            if job.info.get("exc") == "PipelineInterrupted" and job.info.get("final_running") \
                    and not job.info.get("final_alive"):
                j.bad("C22", "abandoned", "the interrupted pipeline has ended, but this went unnoticed", job)


def e_waiters(j, e):
    for job in j.w.jobs:
        res = job.info.get("waiters")
        if res is None:
            continue
        vs = []
        for r in res:
            if not r["done"] and not r["cancelled"] and j.w.aborted is None:
                j.bad("C18", "not-released", "waiter %d was never released" % r["i"], job)
                return
            if r["done"]:
                vs.append(r["v"])
        for v in vs:
            if v["exc"] not in (None, "PipelineFailed"):
                j.bad("C18", "wait-error", "a waiter got %s %s" % (v["exc"], v["msg"]), job)
                return
        kinds = {(v["exc"], tuple(sorted(d["i"] if d["i"] is not None else -1 for d in v.get("failed", ()))))
                 for v in job.waits if v["exc"] in (None, "PipelineFailed")}
        if len(kinds) > 1:
            j.bad("C18", "verdicts-differ", "waiters of the same pipeline got different verdicts: %s" % sorted(
                map(str, kinds)), job)


def e_subshell(j, e):
    w = j.w
    prop = e.get("prop", "C19")
    for serial, n, argv in w.k.remotes:
        if e.get("opts") is not None and argv[:-1] != [b"ssh"] + [o.encode("utf-8") for o in e["opts"]]:
            j.bad(prop, "ssh-argv", "ssh was started with arguments %s" % argv[:-1], w.jobs[n])
            return
    if w.k.root_werr:
        return
    for job in w.jobs:
        plan = j.plans.get(job.n)
        if plan is None or not any(st.kind == "sub" for st in plan.stages):
            continue
        subs = [c for c in w.procs_of(job) if c.inst is None]
        if e.get("fails") and w.aborted is None and job.end is not None and job.mode != "bg" \
                and job.info.get("exc") != "PipelineFailed":
            j.bad(prop, "failure-lost", "the pipeline in the subshell could not be started, but the caller got %s" % (
                job.info.get("exc") or "success"), job)
            return
        for c in subs:
            if c.state not in ("zombie", "dead"):
                continue
            inner = [x for st, pid, serial, parent, x in w.forks if parent == c.serial]
            bad = [x for x in inner if x.status]
            if e.get("fails"):
                if c.status == 0:
                    j.bad(prop, "failure-lost", "the pipeline in the subshell could not be started, the subshell ended "
                          "with status 0", job)
                    return
                continue
            if e.get("works"):
                if c.status:
                    j.bad(prop, "false-failure", "nothing in the subshell failed, but it ended with wait status %#x"
                          % c.status, job)
                    return
                continue
            raised = [r for r in w.fn_rec if r and r["pid"] == c.serial and r["raised"]]
            if (bad or raised) and c.status == 0:
                j.bad(prop, "failure-lost", "the pipeline in the subshell failed (%s), the subshell ended with status 0"
                      % [(x.label, x.status) for x in bad], job)
                return
            if e.get("int"):
                continue
            if not bad and not raised and c.status and not w.k.probes.get("epipe_remote"):
                j.bad(prop, "false-failure", "nothing in the subshell failed, but it ended with wait status %#x"
                      % c.status, job)
                return
            if any(x.state not in ("zombie", "dead") for x in inner):
                j.bad(prop, "subshell-early", "the subshell ended while its programs were still running", job)
                return


def e_bash(j, e):
    w = j.w
    job = job_of(j, e)
    if job is None or job.end is None:
        return
    keep = dict(e["keep"])
    final = dict(keep)
    for n, v in e["want"].items():
        final[n] = v if v is not None else ""
    unset = [n for n, v in e["want"].items() if v is None]

    def same(vals, want):
        vals = dict(vals)
        want = dict(want)
        for n in unset:
            # exported without a value: there is nothing to import
            if vals.get(n, "") in ("", keep.get(n)):
                vals.pop(n, None)
                want.pop(n, None)
        vals.pop("ARR", None)
        want.pop("ARR", None)
        return vals == want, {n: (vals.get(n), want.get(n)) for n in set(vals) | set(want) if vals.get(n) != want.get(n)}
    failed = job.info.get("exc")
    if e.get("partial"):
        if failed is None:
            j.bad("C20", "partial-success", "bash did not report to the end, but sourcing counts as success", job)
    for i in j.k.insts:
        if i.label == "bash" and getattr(i, "sourced", None) is not None and "scripts" in e:
            got, want = i.sourced, e["scripts"]
            if e.get("anyorder") and got != "error":
                got, want = sorted(got), sorted(want)
            if got != want:
                j.bad("C20", "scripts", "bash was told to source %s instead of %s" % (got, want), job)
    if not e.get("partial") and failed is None and w.aborted is None:
        vals = w.obs.get("exports_end", [{}])[0]
        ok, d = same(vals, final)
        if not ok:
            j.bad("C20", "variables", "after sourcing (got, want): %s" % {n: d[n] for n in sorted(d)[:4]}, job)
    total = e.get("total", 0)
    for o in w.obs.get("exports", ()):
        if o["done"] or e.get("partial") and o["gone"]:
            # (a failed sourcing is over as soon as bash is gone and its end
            # has been noticed, whoever waits for it hears of it a bit later)
            continue
        ok0, d0 = same(o["vals"], keep)
        if ok0:
            continue
        ok1, d1 = same(o["vals"], final)
        if not ok1 or o["wrote"] < total:
            j.bad("C20", "early-change", "variables changed before sourcing had completed: %s" % {
                n: d0[n] for n in sorted(d0)[:4]}, job)
            return


def e_ticks(j, e):
    if j.k.fired.get("time_jump"):
        return
    for t0, t1 in j.w.obs.get("ticks", ()):
        if t1 - t0 > 0.05 + e["slack"]:
            j.bad("C21", "stalled", "a task sleeping 0.05 s was held up for %.2f simulated seconds" % (t1 - t0))
            return


def e_last(j, e):
    for o in j.w.obs.get("joblist", ()):
        started = [n for n in o["known"]]
        if not started or o["last"] is None and not started:
            continue
        want = max(started, key=lambda n: j.w.jobs[n].start)
        if o["last"] is None and o["any"]:
            continue
        if o["last"] is None or j.w.jobs[o["last"]].start < j.w.jobs[want].start:
            j.bad("C23", "last", "last_pipeline is job %s, the one started last is job %s" % (o["last"], want))
            return


def e_start_failure(j, e):
    w = j.w
    job = job_of(j, e)
    if job is None or not job.started or w.aborted is not None:
        return
    if not job.info.get("startfault"):
        return
    exc = job.info.get("exc")
    want = (job.spec["startfault"].get("errno"), 24 if "free" in job.spec["startfault"] else None)
    if job.run is None and job.exc is not None:
        if not isinstance(job.exc, OSError) or job.exc.errno not in want:
            j.bad("C24", "other-error", "the system refused with errno %s, the caller got %s %s" % (
                [x for x in want if x], exc, job.info.get("msg")), job)
    left = ["%s#%d" % (c.label, c.serial) for c in w.procs_of(job) if c.state not in ("dead", "zombie")]
    if left:
        j.bad("C24", "left-blocked", "parts already started when starting failed are blocked for ever: %s" % left, job)


def e_fgbg(j, e):
    w = j.w
    base = w.jobs[0] if w.jobs else None
    if base is None:
        return
    procs = w.procs_of(base)
    for job in w.jobs:
        ctl = job.spec.get("ctl")
        if ctl is None or job.end is None or w.aborted is not None:
            continue
        exc = job.info.get("exc")
        if ctl == "bg":
            if exc is not None and exc != "PipelineFailed":
                j.bad("C25", "bg-error", "bg raised %s %s" % (exc, job.info.get("msg")), job)
            elif job.info.get("base_states"):
                off = [s for s, st in job.info["base_states"] if st == "stop"]
                if off:
                    j.bad("C25", "bg-stopped", "bg left processes %s stopped" % off, job)
            if job.info.get("calls", 0) > 400:
                j.bad("C25", "bg-waited", "bg did not return before the pipeline ended", job)
        else:
            alive = job.info.get("base_alive")
            if exc in (None, "PipelineFailed") and alive:
                j.bad("C25", "fg-early", "fg ended with %s while %s is still running" % (exc or "success", alive), job)
                continue
            if w.k.root_werr:
                continue
            failed = any(c.status for c in procs if c.state in ("dead", "zombie")) or any(
                r and r["job"] == base.n and r["raised"] for r in w.fn_rec)
            if exc is None and failed:
                j.bad("C25", "fg-missed-failure", "the pipeline failed, fg reported success", job)
            elif exc == "PipelineFailed" and not failed:
                j.bad("C25", "fg-false-failure", "nothing failed, fg reported failure", job)
            elif exc == "PipelineFailed":
                for v in job.waits:
                    if "text_error" in v:
                        j.bad("C25", "fg-text", "the error of fg cannot be shown: %s" % v["text_error"], job)
            elif exc == "PipelineSuspended":
                if job.info.get("base_states") and not any(st == "stop" for s, st in job.info["base_states"]) and any(
                        st not in ("stop", "dead", "zombie", "dying") for s, st in job.info["base_states"]):
                    j.bad("C25", "fg-not-stopped", "fg reported suspension, but the programs run on", job)
            elif exc not in (None, "PipelineFailed", "PipelineSuspended"):
                j.bad("C25", "fg-error", "fg raised %s %s" % (exc, job.info.get("msg")), job)
    for ev in w.obs.get("tty", ()):
        if ev["sig"] != 20 or ev["fg"] is None or w.aborted is not None:
            continue
        job = w.jobs[ev["fg"]]
        if job.spec.get("ctl") != "fg" or job.info.get("exc") == "PipelineSuspended":
            continue
        if any(c.state not in ("zombie", "dead") or getattr(c, "exit_calls", 0) > ev["calls"] + 150 for c in procs) \
                and ev.get("base_alive"):
            j.bad("C25", "fg-not-suspended", "suspended by the user while in the foreground again, but fg ended with %s"
                  % (job.info.get("exc") or "success"), job)
