"""What each property's check runs. Read by check.py and gen_manifest.py."""

PBT = "property-based testing (rapid)"


def run(pkg, regex, **kw):
    return dict(pkg=pkg, run=regex, **kw)


CHECKS = {
    "C01": dict(level="exploration", runs=[run("streamt", "^TestC01_(History|Huge)", shards=2),
                                           run("streamt", "^TestC01_Concurrent", race=True)],
                technique=PBT + ": op histories against the concatenated bytes as reference model, concurrent ReadAt under the race detector"),
    "C02": dict(level="exploration", runs=[run("streamt", "^TestC02_", shards=2)],
                technique=PBT + ": segments generated short, long and failing, read results against the declared layout"),
    "C03": dict(level="exploration", runs=[run("streamt", "^TestC03_", shards=2)],
                technique=PBT + ": ReadAt histories over generated streams against the object and a count of opens"),
    "C04": dict(level="exploration", runs=[run("streamt", "^TestC04_", shards=2)],
                technique=PBT + ": generated sources, cancellation points and close failures against small models"),
    "C05": dict(level="fault_enumeration", runs=[run("fsutilt", "^TestC05_SafeWrite", shards=4), run("fsutilt", "^TestC05_Concurrent", race=True, shards=2)],
                technique=PBT + ": safe writes under a fault or crash at a generated call, the tree left compared with before and after; concurrent writers and readers"),
    "C06": dict(level="exploration", runs=[run("fsutilt", "^TestC06_", shards=5)],
                technique=PBT + ": generated names, neighbours and collision runs against the tree expected to be left"),
    "C07": dict(level="fault_enumeration", runs=[run("fsutilt", "^TestC07_", shards=6)],
                technique=PBT + ": generated trees copied with a fault at a generated call, compared with the source tree"),
    "C08": dict(level="exploration", runs=[run("fsutilt", "^TestC08_", shards=6)],
                technique=PBT + ": generated symlink trees against a reference walk"),
    "C09": dict(level="fault_enumeration", runs=[run("fsutilt", "^TestC09_", shards=7)],
                technique=PBT + ": stateful histories of pulls with faults, crashes and changing sources against the set of whole versions"),
    "C10": dict(level="fault_enumeration", runs=[run("fsutilt", "^TestC10_", shards=8)],
                technique=PBT + ": stateful histories of pushes with faults, crashes and changing sources against the set of whole versions"),
    "C11": dict(level="exploration", runs=[run("fsutilt", "^TestC11_", shards=2)],
                technique=PBT + ": generated strings, paths, modes and errors against direct definitions"),
    "C12": dict(level="exploration", runs=[run("httpt", "^TestC12_", shards=2), run("httpt", "^TestC12_Concurrent", race=True)],
                technique=PBT + ": generated read histories and concurrent reads over generated servers against the object's bytes"),
    "C13": dict(level="fault_enumeration", runs=[run("httpt", "^TestC13_", shards=3)],
                technique=PBT + ": histories of reads under generated server answers and version changes; bytes tell the version and offset they are of"),
    "C14": dict(level="exploration", runs=[run("httpt", "^TestC14_", shards=2)],
                technique=PBT + ": stateful read histories with each request foretold; generated malformed URLs and failures searched for planted secrets"),
    "C15": dict(level="fault_enumeration", runs=[run("httpt", "^TestC15_", shards=3), run("httpt", "^TestC15_Concurrent", race=True)],
                technique=PBT + ": stateful histories of puts, gets, pushes and reads with failing requests and readers against a map of names to bytes"),
    "C16": dict(level="fault_enumeration", runs=[run("tarft", "^TestC16_", shards=3), run("tarft", "^TestC16_Concurrent", race=True)],
                technique=PBT + ": generated archives of all formats, entry kinds and sparse maps, read under generated faults and concurrently, against the tree they were made from"),
    "C17": dict(level="exploration", runs=[run("tarft", "^TestC17_", shards=3)],
                technique=PBT + ": generated link trees and paths against a reference resolver, and secrets outside a sub searched for"),
    "C18": dict(level="exploration", runs=[run("tarft", "^TestC18_", shards=4), run("tarft", "^$", fuzz="FuzzC18_Archive", seconds=600)],
                technique=PBT + ": structure-aware mutation fuzzing of archives (coverage-guided in the thorough tier), differential against archive/tar"),
    "C19": dict(level="exploration", runs=[run("vroott", "^TestC19_", shards=3)],
                technique=PBT + ": model-based histories of escaping paths and links against *os.Root, with the outside compared after every step"),
    "C20": dict(level="exploration", runs=[run("vroott", "^TestC20_", shards=2)],
                technique=PBT + ": generated calls on read-only views, the tree behind compared exactly and every read compared with the unwrapped one"),
    "C21": dict(level="exploration", runs=[run("vroott", "^TestC21_", shards=2)],
                technique=PBT + ": model-based histories through wrapper compositions against the wrapped file system"),
    "C22": dict(level="fault_enumeration", runs=[run("vroott", "^TestC22_", shards=2)],
                technique=PBT + ": walks of generated trees with skips, errors and faults against a model of the walk"),
    "C23": dict(level="fault_enumeration", runs=[run("vroott", "^TestC23_", shards=2)],
                technique=PBT + ": generated trees, names, capabilities and faults through the bridges against os.DirFS and the tree itself"),
    "C24": dict(level="exploration", runs=[run("vroott", "^TestC24_", shards=6)],
                technique=PBT + ": model-based differential histories of calls and handles against *os.Root"),
    "C25": dict(level="exploration", runs=[run("vroott", "^TestC25_", shards=4)],
                technique=PBT + ": stateful histories of AddFile, AddFS and ordinary calls with counted and failing views against a model tree"),
    "C26": dict(level="exploration", runs=[run("vroott", "^TestC26_", shards=4), run("vroott", "^TestC26_", race=True, shards=2)],
                technique=PBT + ": generated concurrent programs, each run explained by a searched sequential order (linearizability), and the race detector"),
    "C27": dict(level="exploration", runs=[run("overlayt", "^TestC27_", shards=2)],
                technique=PBT + ": generated stacks of layers and marks, model-based histories of calls and handles against the merged tree as *os.Root; looks failed at every call they make to a layer"),
    "C28": dict(level="exploration", runs=[run("overlayt", "^TestC28_", shards=2)],
                technique=PBT + ": model-based histories with reopens and restacks, lower layers compared exactly after them"),
    "C29": dict(level="fault_enumeration", runs=[run("overlayt", "^TestC29_", shards=3)],
                technique=PBT + ": generated changes crashed and failed at every call they make to the top layer or its store, and failed at the reads of every layer, the tree against before and after"),
    "C30": dict(level="fault_enumeration", runs=[run("overlayt", "^TestC30_", shards=3)],
                technique=PBT + ": stateful histories of settings under crashes, power loss and failing calls against a map of marks"),
    "C31": dict(level="exploration", runs=[run("overlayt", "^TestC31_", shards=4), run("overlayt", "^TestC31_", race=True, shards=2)],
                technique=PBT + ": generated concurrent programs over generated layers, checked for an order that explains them (linearizability) and under the race detector"),
    "C32": dict(level="fault_enumeration", runs=[run("sftpt", "^TestC32_", shards=4)],
                technique=PBT + ": model-based differential histories against the directory itself; each call re-run with every one of its requests refused or cut off"),
    "C33": dict(level="exploration", runs=[run("vroott", "^TestC33_", shards=2), run("vroott", "^TestC33_Exclusion", race=True)],
                technique=PBT + ": stateful lock histories against a table of holders seen by a non-waiting prober, and concurrent holders against counters"),
    "C35": dict(level="fault_enumeration", runs=[run("overlayt", "^TestC35_", shards=3), run("overlayt", "^TestC35_(Shared|Concurrent)", race=True)],
                technique=PBT + ": model-based histories with recording policies, every copy-up failed in turn, and generated copies with every call they make failing against the trees expected"),
    "C34": dict(level="fault_enumeration", runs=[run("helpert", "^TestC34_", shards=2)],
                technique=PBT + ": generated fixtures built with every call failing in turn and compared with their declarations; call histories over a recording stand-in; assertions against errors.Is and errors.As"),
}

NOT_APPLICABLE = {}
