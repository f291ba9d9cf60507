import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[
("C01","a543dab","a segment without metadata (the second of two equal data writes) was parsed as if it had metadata, so reopening failed or lost data"),
("C01","a13cfeb","a write to a different channel list or in a format used before omitted its metadata, so its samples were attributed to other channels"),
("C16","5c6a887","timestamps (LVTime) and extended floats were declared with a wrong size on disk, so chunks and offsets were wrong"),
("C14","dddcbce","writing no values, or values of an unsupported type, wrote a partial segment before failing or panicked"),
("C04","b79468f","string channels were indexed without their byte size and read over, shifting the channels behind them"),
("C03","96bea77","objects listed without raw data were counted in the chunk, shifting the data of the others"),
("C05","4ebd13e","reading channels of unequal length from a block skipped or stopped all at the same sample"),
("C10","fa77f12","adding the segment start to the raw data offset overflowed (panic in debug builds)"),
("C04","ceb1d3d","read_channels advanced every channel by the progress of the longest one, losing or repeating samples"),
("C05","ced7b9d","requesting a channel twice filled one buffer only"),
("C09","c027be4","object paths with separators or quotes inside names were split at the wrong place (or panicked)"),
("C09","6822e8c","parsing a path rewrote it, so it no longer addressed the object it was listed for"),
("C08","97b8e81","listing the channels of a group also listed those of groups whose name it is a prefix of"),
("C11","5b3cbb8","appending to a file cut off inside a segment wrote behind the declared end and corrupted it"),
("C15","0c69cfd","after a write that failed part way later writes were acknowledged but unreadable"),
("C10","73204ca","channel_length overflowed (panic in debug builds) on a file with huge declared counts"),
("C12","06ccf44","a failed seek while opening was taken for the end of the file, silently dropping the remaining segments"),
("C26","9edc495","a DAQmx index as NI writes it (header 0x1269) was taken for an ordinary one and its scalers for properties, so such files opened with made-up content"),
("C20","de1e29f","a date went through f64: before 1904 its fraction was dropped, nanoseconds were lost everywhere, fractions next to a whole second were refused and extreme seconds overflowed (panic in debug builds)"),
]
with open(os.path.join(root,"known_findings.jsonl"),"w") as f:
    for p,c,w in F:
        f.write(json.dumps({"status":"fixed","property":p,"commit":c,"what":w,"entry":f"fixed: property={p} {c} {w}"})+"\n")
