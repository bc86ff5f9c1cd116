def d(what): return "runtime differential monitoring: %s, judged online by an independent reference interpreter" % what
NOTE="Sampled exploration (seeded, counted in the evidence): silent when every observed execution agrees with the oracle. "
IN=NOTE+"Trusts the reference interpreter in harness/src/model.rs and the third-party crates it shares with the code (url, psl, regex, glob)."
T["U08"]=(d("query-editing mappers on random queries"),"exploration",IN)
T["U09"]=(d("nested error-handling mappers with failures injected at random actions"),"exploration",IN)
T["U10"]=(d("random rule and mapper programs"),"exploration",IN)
T["U11"]=(d("random nested conditions on random task states"),"exploration",IN)
T["U12"]=(d("random nested string modifications"),"exploration",IN)
T["U13"]=(d("random string locations, matchers and character classes"),"exploration",IN)
T["U14"]=(d("random string sources and references on random task states"),"exploration",IN)
T["U15"]=(d("random call graphs of stored functions with clashing argument names"),"exploration",IN)
def c(what): return "runtime monitoring by construction: %s, each generated together with the answer it must have" % what
T["U05"]=(d("random histories of URL edits, with every host fact recomputed from the URL's current text after each edit"),"exploration",IN)
T["U06"]=(d("single URL-part reads and writes, with every other part compared before and after"),"exploration",IN)
T["U07"]=(d("segment edits compared with the same edit on a list"),"exploration",IN)
T["U24"]=(c("HTML texts and start tags"),"exploration",NOTE+"Trusts Python's copy of the standard's reference table (harness/src/entities.txt).")
T["U25"]=(c("JavaScript string literals"),"exploration",NOTE+"All octal, hexadecimal and single-character escapes and the basic plane are covered exhaustively.")
T["U16"]=(c("parameter overrides from files and command lines, observed in the parameters and by tasks run by the program"),"exploration",NOTE)
T["U17"]=("runtime monitoring with fault injection: cache histories from threads, handles and processes with injected delays, deaths and failing file operations, checked offline by an exact register-atomicity checker and by reopening","exploration",NOTE+"Loss of power is not simulated; a crash is a killed process at, or half-way through, a chosen file operation.")
T["U18"]=("runtime monitoring: cached operations built from functions that count their evaluations, with every result, evaluation count and the whole cache compared online with a model; the program observed through a recording command","exploration",NOTE)
T["U19"]=("runtime monitoring of traffic: every byte loopback servers and proxies receive compared with the random request and client configuration, and every result with the scripted (often faulty) answer","exploration",NOTE+"Plain HTTP only; no TLS server is available offline.")
T["U20"]=("runtime monitoring of traffic: sequences of redirect expansions against a scripted server sharing a cache, with requests, URLs and stored entries compared with a model","exploration",NOTE+"Plain HTTP only; no TLS server is available offline.")
T["U28"]=("runtime monitoring with a recording child process: everything a command was given (arguments, environment, directory, every byte of input) and everything it did compared with the configuration and the result, with faults, deaths and pipe-filling data","exploration",NOTE)
T["U01"]=("runtime monitoring of output order: the program run with 1 to 64 threads on tasks that identify themselves, with delays injected inside tasks, input fed in pieces and slow readers; every printed result compared with its own task's","exploration",NOTE+"Schedules are perturbed, not enumerated; the evidence counts the orders tasks really ended in.")
T["U02"]=("runtime monitoring of failure reports: the program run on mixtures of good, malformed, failing and undecodable tasks and unreadable inputs; every result, message, the JSON document and the exit status compared with the tasks', and tasks compared with themselves alone","exploration",NOTE)
T["U04"]=("runtime monitoring: every task of random batches (random rules and the shipped ones) run alone on a fresh configuration and then in order, in reverse, repeated, with copies, on several threads released together and in the program, with all results compared; patterns first used by eight threads at once","exploration",NOTE)
T["U03"]=("runtime monitoring of robustness: links to every kind of host, damaged, huge and deeply nested ones, and hostile answers from a scripted proxy, with panics, processor time and re-parsing of every result watched","exploration",NOTE+"File URLs are left out of the re-parsing oracle (the url crate may drop their host).")
T["U21"]=("runtime monitoring of network use: connect and getaddrinfo of the whole process are intercepted while links to every kind of host are cleaned with and without no-network","exploration",NOTE+"The network is only reached through libc's connect and getaddrinfo.")
T["U22"]=("runtime differential monitoring: links to hosts without rules of their own compared with an independent model of the universal clean-ups; every listed parameter name and every exception tried","exploration",NOTE+"The lists of names and hosts are read from the shipped configuration, except for a core of well-known tracking parameters.")
T["U23"]=("runtime metamorphic monitoring: every result of an offline cleaning cleaned again, and other spellings of every link cleaned","exploration",NOTE)
T["U26"]=("runtime monitoring: every kind of value a configuration holds is generated, loaded, written and read back (three written forms), compared, and whole configurations run before and after; near-miss programs must be refused","exploration",NOTE)
T["U27"]=("runtime monitoring of the two gates, in the library and as run by the program: files and configurations right everywhere, or with exactly one thing wrong at a random place, against the verdict and exit status","exploration",NOTE)
T["U29"]=("runtime monitoring: documents that say nothing twice must load with everything in them, and the same documents with one thing said twice at a random place, in random spellings, must be refused, by the library and by the program","exploration",NOTE+"Tables nothing is said about (stored common parts, arguments of calls, headers, environment, form and JSON objects) are not judged.")
T["U30"]=("runtime metamorphic monitoring: every random program runs with and without debugging put around random places, in the library and through the program (where a command counts how often it is run), and the program and library built with the debugging feature are run against the ones built without","exploration",NOTE+"What debugging prints is not judged beyond its presence.")
T["U31"]=("runtime metamorphic monitoring: links carrying random destinations in every known way, one or several inside each other, and links under every other name of a site, cleaned by the real code and compared with the cleaning of the destination or of the site's own link","exploration",NOTE+"Destinations on carleton.ca, vk.com and pulse.ly subdomains are left out: their rules need another redirect before them.")
T["U32"]=("runtime differential monitoring: links to the sites the documented flags speak of, cleaned under random sets of flags and host variables and under each flag alone, compared with an independent model of the documentation","exploration",NOTE)
