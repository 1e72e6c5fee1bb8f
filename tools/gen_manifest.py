#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
T={
"C01":("property-based testing: random encoder histories, decode and compare with the model of the history","exploration"),
"C02":("property-based testing: encoder output parsed by an independent strict parser and LZW decoder; differential finish vs drop","exploration"),
"C03":("property-based testing: grammar-based file generation, decoded frames compared with the description they were generated from","exploration"),
"C04":("property-based testing: metamorphic RGBA vs indexed expansion, over valid and mutated files","exploration"),
"C05":("property-based testing: interlaced files against a reference row permutation, all heights in a range and random larger ones","exploration"),
"C06":("property-based testing: metamorphic, same bytes in different chunkings; valid, truncated, mutated and random bytes","exploration"),
"C07":("property-based testing: differential between read methods, random fill sizes, against the generated pixels","exploration"),
"C08":("property-based testing: compressed transport against direct encoding and decoding, shared frame decoder in random order","exploration"),
"C09":("stateful property-based testing: random skip/part-read histories against the full decode","exploration"),
"C10":("fuzzing: structured and mutated bytes, random options and call histories, with panic, hang and runaway detection","exploration"),
"C11":("fault enumeration: every truncation point of generated files","fault_enumeration"),
"C12":("property-based testing with a counting allocator: limits around every size, huge declared sizes","exploration"),
"C13":("property-based testing: frame geometry placed around the screen edges against an arithmetic oracle","exploration"),
"C14":("property-based testing: code streams with and without end code in all sub-block splits, read methods and chunkings","exploration"),
"C15":("property-based testing: metamorphic insertion of unknown blocks into generated files","exploration"),
"C16":("fault injection in property-based tests: reader errors, interruptions and short reads at random points","fault_enumeration"),
"C17":("fault injection in property-based tests: writer errors, interruptions and short writes at every point","fault_enumeration"),
"C18":("stateful property-based testing: encoder histories with refused calls, byte-compared with the history without them","exploration"),
"C19":("property-based testing: images with controlled color counts, frame and file round trip compared with the pixels","exploration"),
"C20":("property-based testing: payload round trip through encoder and streaming decoder in random pieces","exploration"),
"C21":("property-based testing: event sequence derived from the description of generated files, random schedules","exploration"),
"C22":("stateful property-based testing: concatenated files, calls after the end, recovered readers","exploration"),
"C23":("property-based testing: generated headers and extensions against their description","exploration"),
"C24":("stateful property-based testing: generated control extension sequences with read histories against a scoping model","exploration"),
"C25":("property-based testing: single injected defects established by a reference LZW decoder, all read methods","exploration"),
"C26":("property-based testing: transcoding round trip and idempotence","exploration"),
"C27":("property-based testing with a counting allocator: generated blocks and calls, repeated few and many times","exploration"),
"C28":("stateful property-based testing: random interleavings of decoders and encoders, also on threads, against running alone","exploration"),
"C29":("stateful property-based testing: the writer's content after each call of generated histories, against shorter histories and decoding","exploration"),
"C30":("property-based testing: metamorphic, arbitrary bytes cut anywhere against the same with other bytes following","exploration"),
"C31":("property-based testing: metamorphic, arbitrary bytes under pairs of option sets ordered by strictness","exploration"),
"C32":("property-based testing: differential against an independent reference decoder for arbitrary bytes","exploration"),
"C33":("property-based testing: differential between builds of the crate, over decoder, encoder and conversion jobs with faulty writers","exploration"),
"C34":("property-based testing: metamorphic, CPU time of generated large inputs and calls against that of a 16th of them","exploration"),
"C35":("property-based testing: generated files behind a reader that delivers no more than each call's result depends on, against the file model and a reference decoder","exploration"),
"C36":("property-based testing: conversions of generated bytes, settings and errors against the format's tables and round trips","exploration"),
"C37":("property-based testing: generated pictures through conversion and a file, differential bound on the error against the quantizer itself","exploration"),
"C38":("stateful property-based testing: bytes written by each call of generated histories against the format's sizes and a reference LZW encoder","exploration"),
"C39":("stateful property-based testing: generated sequences of settings against a model, and metamorphic, calls with and without queries in between","exploration"),
}
checks=[]
for i in ids:
    src=open(os.path.join(root,"harness/src/checks",i.lower()+".rs")).read()
    n=int(re.search(r"quick: ([\d_]+)",src).group(1).replace("_","")); th=int(re.search(r"thorough: ([\d_]+)",src).group(1).replace("_",""))
    checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":T[i][0],"level":T[i][1],
     "level_note":f"Searches {n:,} generated cases (thorough: {th:,}, and 5 minutes of coverage-guided fuzzing of the same cases with libFuzzer) for a counterexample and shrinks what it finds; it can miss one that none of the cases hits. Trusts the reference components in vref and the harness; weezl and color_quant are taken as released."})
m={"version":1,"setup_cmd":"./run.sh build","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo. known_findings.txt lists the defects repaired by fix: commits. Replay a failure with: harness/target/release/gifcheck replay <file>"}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(checks))
