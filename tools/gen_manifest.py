#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "/opt/venv/bin/python -B sim/run.py"
T = "deterministic simulation with fault injection: "
COMMON = " Seeded search, not exhaustive: nothing is claimed beyond the simulated runs counted in the evidence."
C = {
 "C01": ("seeded sessions over random worlds with extreme draws, Ctrl-C and restarts; confinement and D8 invariant after every operation",
         "Every recorded point of every run is checked."),
 "C02": ("seeded sessions with extreme draws; each move judged against a reference model of barred cells and dead ends",
         "Trusts the reference model (sim/model.py), an independent scalar restatement of the documented rules."),
 "C03": ("seeded sessions under a controlled draw stream; zero-weight choices refuted at once, choice frequencies pooled over all runs against the reference law",
         "Frequencies are judged at 5 standard deviations, and only believed when an independent sample confirms them; smaller deviations of the law pass."),
 "C04": ("seeded sessions; each step duration judged against the travel-time law, the spread of the diffusion term pooled over runs",
         "As C03 for the statistical part; the bounds of each single duration are exact up to rounding."),
 "C05": ("seeded sessions with edge layouts, many particles and restarts; absorption as invariant, progress of every free particle within one iteration (liveness bound)",
         "Cells of the outermost ring are not held to the progress clause."),
 "C06": ("seeded sessions of target-time runs with iteration limits; refinement against a reference stopping rule, per particle",
         "Exact ties of the rule within rounding accept either answer."),
 "C07": ("seeded sessions of seeding calls under controlled and extreme draws; exact accounting of particles, pooled uniformity of picks",
         "Pooled statistics as in C03."),
 "C08": ("seeded operation sequences with rejected calls and Ctrl-C at every draw or source line; history append-only and aligned after every operation",
         "An interrupt at an arbitrary source line is only required to keep earlier points."),
 "C09": ("seeded sessions with changing flow fields, resumed histories and newly tracked variables; each recorded value against the field in force",
         "Trusts the reference fields of sim/model.py."),
 "C10": ("crash and restart at random operations and draws, in the same or a fresh process, from memory or JSON; equivalence with the uninterrupted run under the same draws",
         "The continuation gets the same random draws per operation, which the simulator arranges."),
 "C11": ("disk faults (full disk, failed open/write/close/mkdir, short writes) and process death at every kind of file operation of the saving routines; history of what reached the disk checked afterwards",
         "Faults are injected below Python's real buffered file objects; lost pages after a successful close (no fsync) are not modelled. Figures are files of fixed content."),
 "C12": ("shuffled directory listings, read faults, missing, vanishing and truncated outputs; refinement against a run driven step by step",
         "A csv cut exactly inside its last number stays readable and is not counted as truncated."),
 "C13": ("simulated process pool: seeded task assignment and completion, workers raising, dying, failing to start, Ctrl-C; exactly-once audit of the result and of left-over workers",
         "Worker code runs in real forked processes; a pool waiting for a killed worker for ever is taken to end by the user's Ctrl-C."),
 "C14": ("simulated process pool under pairs of schedules and start methods from one seed; equality of results, coincidence test between workers' random streams",
         "Independence is tested by coincidences of recovered diffusion draws and of whole tracks."),
 "C15": ("two to four sessions over shared inputs interleaved by a seeded scheduler, operation by operation or at single source lines of real threads, threads dying; equality with solo runs",
         "Each session has its own draw stream; threads are switched at source lines of the package, not inside numpy."),
 "C16": ("paired runs from one seed under different clocks, entropy, hash seeds, process histories, observers (some interrupted), logging and saving; equality of histories and generator position",
         "Figures are not rendered."),
 "C17": ("seeded sessions with restarts and interrupts; exposure accounts kept move by move against the routine's answers, additivity and restart splits",
         "One known finding (chunk upper bounds are inclusive) is matched by its exact signature."),
 "C18": ("queries placed at random points of seeded sessions with faults, some interrupted; answers against the recorded history",
         "Near ties in time within rounding accept either record unless the tie is exact."),
 "C19": ("seeded sessions under steepest descent with extreme draws and repeated visits; each move against the maximal reference weights, tie choices pooled",
         "Ties within 1e-9 relative count as ties; pooled statistics as in C03."),
 "C20": ("seeded sessions with restarts and interrupts; visit counts and occupation times kept move by move against the maps",
         "Smoothing is recomputed with scipy's Gaussian filter, which is trusted."),
 "C21": ("twin particle objects under one seeded draw stream, one moved by the routines with failing disks and interrupted frames, one by single iterations; equality of histories and draw position",
         "Interrupts arrive at frames and file operations, not inside an iteration (that is C08)."),
 "C22": ("seeded histories with restarts and disk faults; the artists of every figure compared with the recorded positions at the moment it is saved",
         "Artists are inspected instead of pixels; rendering is replaced by a fixed small file."),
 "C23": ("disk faults and process death at every kind of file operation of the exposure plots; saved list and drawn curves against the given exposures",
         "Faults as in C11; curves are read from the figures' lines."),
 "C24": ("seeded sessions of logging settings, verbose arguments and rejected levels over failing handlers, and threads switched at source lines (locks of the package simulated); messages per handler against the same session under plain logging",
         "Whether the default stderr handler stays once a handler was given is left open; messages of a call whose verbose argument need not take effect may follow either level."),
 "C25": ("seeded sessions with restarts, conversions interrupted at a line and seeding through coordinates, next to the same session without conversions; coordinates of every recorded point against an independent transform",
         "Coordinates left in a history that has since been extended are not looked at before they are asked for again."),
 "C26": ("seeded series of data sets through reused interpolators, with calls interrupted or out of memory at a line and threads switched at source lines; every grid against neighbours and weights worked out by hand",
         "Where several samples are equally far from a node, only the range is judged; missing samples are judged only where they take no part."),
 "C27": ("seeded folders of figures and failing disks and movie writers; every frame handed to a stand-in writer against the figure on disk, maps against the artists drawn",
         "ffmpeg is not installed here: a stand-in writer keeps what each frame shows, so encoding is not covered."),
 "C28": ("seeded seeding campaigns of target-time runs with crashes, JSON restarts, interrupted and threaded calls; counts against exact rational shares, start times of the recorded particles against the counts",
         "Which of several equal remainders is rounded up is left open."),
 "C29": ("seeded runs and lists turned into percentile maps by repeated, interrupted and threaded calls; percentiles against the mixture distribution, smoothing against a restatement",
         "Percentiles are judged within 0.4 % of probability and of the range of times (the resolution of the curve); only odd windows."),
 "C30": ("paired seeded sessions over the forms one flow can be given in, filled in seeded order with refused attempts on the way, under equal draws; equality of the recorded histories",
         "Numbers are chosen so that depth, stage and topography convert exactly; discharge against velocity allows times rounding of 2e-5."),
 "C31": ("seeded sessions of plotting calls, failing disks, interruptions and the user's own figures; every artist drawn against the same call in a fresh session, every other figure against itself",
         "Layout that only rendering decides (tick labels, tight bounding boxes) is not compared; travel path colours are random by design."),
}
N = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
assert {p["id"] for p in props} == set(C) | set(N), {p["id"] for p in props} ^ (set(C) | set(N))
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c \"import numpy, scipy, matplotlib\"",
     "checks": [{"property": k, "quick_cmd": "%s %s" % (RUN, k), "thorough_cmd": "%s %s --tier thorough" % (RUN, k),
                 "technique": T + t, "level": "exploration", "level_note": n + COMMON} for k, (t, n) in sorted(C.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(N.items())],
     "notes": "No hooks in /repo: every seam is installed from outside (sim/boot.py). Replay a violation with "
              "'/opt/venv/bin/python -B sim/run.py --replay FILE'; 'run.py --selftest' checks that seeds are repeatable."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
