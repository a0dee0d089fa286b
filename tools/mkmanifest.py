#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks which exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OR = 'Exploration: every generated execution of the real code (native and pure, library and commands) is judged by an independent oracle. '
T = {
 'C01': ('runtime monitoring: fill results against an independent heap flood, exact', ''),
 'C02': ('runtime monitoring: depths and bluespot levels of runs against independent subtraction and per-region levels', ''),
 'C03': ('runtime monitoring: flow directions of runs traced and checked for steepest descent', ''),
 'C04': ('runtime monitoring: slope-preserving fill against an independent Dijkstra flood with increments, exact', ''),
 'C05': ('runtime monitoring: accumulated flow against an independent topological count', ''),
 'C06': ('runtime monitoring: labels of runs against independent labelling, statistics and filter evaluation', ''),
 'C07': ('runtime monitoring: generated filter texts against an own evaluator, audit hooks watching refused text', ''),
 'C08': ('runtime monitoring: watersheds against an independent downstream trace', ''),
 'C09': ('runtime monitoring: pour points of runs against independent per-label extremes', ''),
 'C10': ('runtime monitoring: nodes and streams of runs against an independent trace of the flow paths', ''),
 'C11': ('runtime monitoring: input volumes of runs against zonal sums', ''),
 'C12': ('runtime monitoring: final volumes against an independent fill-and-spill, conservation and metamorphic relations', ''),
 'C13': ('runtime monitoring: histograms of runs recounted from the terrain', ''),
 'C14': ('runtime monitoring: water levels of runs against exact sorted-terrain volumes', ''),
 'C15': ('runtime monitoring: final rasters against levels and terrain', ''),
 'C16': ('runtime monitoring: ledger of area, volume and water over all artefacts of complete runs', ''),
 'C17': ('runtime monitoring: artefacts of complete against artefacts of the chain of commands', ''),
 'C18': ('runtime monitoring: differential execution of native and pure code, switching histories', ''),
 'C19': ('sanitizers: address and undefined-behaviour sanitizer builds, bounds-checked build, differential of two builds with differently filled automatic variables', ''),
 'C20': ('runtime monitoring: raster round trips against independent GDAL reads', ''),
 'C21': ('runtime monitoring: layer round trips against independent OGR reads, untouched-layer digests', ''),
 'C22': ('runtime monitoring: polygons of runs rasterised back by an own point-in-polygon count', ''),
 'C23': ('runtime monitoring: digests of inputs and directories before and after runs', ''),
 'C24': ('runtime monitoring: metamorphic comparison of runs over differently stored DEMs', ''),
 'C25': ('runtime monitoring: concurrent process and thread stress, digests against solitary runs, temporary directory listing', ''),
 'C26': ('fault injection: write limits, full file systems and unwritable targets at enumerated points, exit status against completeness', ''),
 'C27': ('runtime monitoring: label statistics against independent statistics', ''),
 'C29': ('runtime monitoring: commands with options left out or given among decoy layers, digests of all layers, events compared with solitary ones', ''),
 'C30': ('runtime monitoring: metamorphic order of runs over growing events', ''),
 'C31': ('runtime monitoring: metamorphic comparison of runs over scaled, mirrored and turned terrain', ''),
 'C32': ('runtime monitoring: flow and network helpers against own successor tables, native and pure', ''),
 'C33': ('runtime monitoring: metamorphic comparison of areas processed alone and as parts of mosaics', ''),
 'C34': ('fault injection: processes killed and interrupted at lines, times and writes, state left behind examined', ''),
 'C28': ('runtime monitoring: inputs of runs swapped for others which do not fit, exit status and digests of the output place', ''),
}
LEVEL = {'C26': 'fault_enumeration', 'C34': 'fault_enumeration'}
py = '/opt/venv/bin/python run.py '
checks = []
for k in sorted(T):
    if not os.path.exists(os.path.join(V, 'vf/checks/%s.py' % k.lower())):
        continue
    checks.append(dict(property=k, quick_cmd=py + k, thorough_cmd=py + k + ' thorough', evidence_file='evidence/%s.json' % k, technique=T[k][0],
                       level=LEVEL.get(k, 'exploration'),
                       level_note=(OR + T[k][1] + 'Nothing is claimed for executions not generated; trusts numpy, GDAL and the oracle, see DESIGN.md section %s.' % k).strip()))
have = {c['property'] for c in checks}
m = dict(version=1, setup_cmd=py + 'setup', checks=checks,
         not_applicable=[dict(property=k, reason='check under construction') for k in sorted(T) if k not in have],
         notes='No hooks: the checks observe the public API, the commands and their files. KNOWN_FINDINGS.txt lists defects found, repaired and recorded.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks')
