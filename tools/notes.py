_B = " Trusts TLC, the projection done by the driver and pandas/fastparquet readers."
_T = "TLA+ spec (TLC) + replay of TLC-generated and seeded histories on the code, TLC trace validation"
_M = "Model: exhaustive within small bounds. "
NOTES = {
 "C01": (_T, "Model: all histories of writes within small bounds keep rows. Code: sampled histories, each transition compared with the clause; bounded evidence, not proof." + _B),
 "C02": (_T, _M + "Code: sampled ordered histories, order and tie order compared at each step." + _B),
 "C03": (_T, _M + "Code: sampled histories with duplicates, content compared with keep-last over the merged row groups." + _B),
 "C04": (_T, _M + "Code: sampled layouts, row groups before/after compared with the rule." + _B),
 "C05": (_T, "Code: at each step of sampled histories all reading paths compared with the row groups." + _B),
 "C06": (_T, _M + "Code: histories of writes with metadata to several datasets, metadata compared with the merge rule at each step." + _B),
 "C07": (_T, _M + "Code: histories mixing accepted, rejected and empty writes; all files compared by content before and after." + _B),
 "C08": (_T, _M + "Code: histories of set, delete and reopening among foreign files; keys compared at each step." + _B),
 "C09": (_T, _M + "Code: histories of set and delete; full directory tree compared at each step." + _B),
 "C10": (_T, "Model: conversions exhaustive over a small alphabet. Code: the same plus seeded values on many schemas, results compared with the specified conversions." + _B),
 "C11": (_T, _M + "Code: all the data sets enumerated by TLC (sampled) and seeded ones, bins compared with their definition." + _B),
 "C12": (_T, _M + "Code: all the data sets enumerated by TLC (sampled) and seeded ones, snapshots compared with their definition." + _B),
 "C13": (_T, _M + "Code: sampled chunkings, buffer serialized or not, chained results compared with the definition on the whole data." + _B),
 "C14": (_T, _M + "Code: sampled streams, chunkings, calls and new objects; recorded results compared with the definition on the whole seed." + _B),
 "C15": (_T, _M + "Code: sampled calls overlapping on the seed, recorded results and restart index compared with the definition." + _B),
 "C16": (_T, _M + "Code: sampled filters and streams, results of each key compared with the definition on its own rows." + _B),
 "C17": (_T, _M + "Code: failures injected at all chunks of sampled streams, then restart; results compared with the definition." + _B),
 "C18": (_T, _M + "Code: sampled memory limits (a flush possibly at each chunk); results and rows given to 'post' compared with the specified ones." + _B),
 "C19": (_T, _M + "Code: stop injected ahead of each write to disk in sampled runs, then restart; stops inside one write to disk are not covered." + _B),
 "C20": (_T, _M + "Code: writes of the key tasks forced in sampled schedules under threads; results per key compared with the definition for this key alone." + _B),
 "C21": (_T, _M + "Code: sampled sequences of declarations and runs; refusal and files compared with the specified ones." + _B),
 "C23": (_T, _M + "Code: settings and results of user functions enumerated by TLC (each rule deciding alone at least once), histories of lists generated by TLC, "
         "refused calls inserted at any position of seeded chains." + _B),
 "C24": (_T, _M + "Code: seeded runs; at each chunk asked, content of the store, chunks alive and calls of the user check compared with the specified bound." + _B),
 "C22": (_T, _M + "Code: sampled names; columns and values read back compared at each step." + _B),
}
NA = {}
