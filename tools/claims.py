TECH = "contracts on the real Go code, verification conditions generated from its SSA, discharged by z3/cvc5"
PROVED = "All obligations of the contracts and lemmas of this property are discharged for all inputs; the drivers also execute the real code on generated inputs (bounded, not counted as proved). Trusted: the gov translator, the solvers, and the models of library functions listed in the evidence. "
BOUNDED = "No obligation of this property is discharged yet: bounded drivers execute the real code on generated inputs and compare it with a reference written from the property. Labelled bounded, not proved. "
BT = "bounded stand-in: generated executions of the real code against a reference (contracts not discharged yet)"
MIXED = "Part of the property is proved, part is bounded. Proved for all inputs: %s. Bounded (drivers execute the real code on generated inputs; not counted as proved): %s. Trusted: the gov translator, the solvers, and the models of library functions listed in the evidence. "
MT = "contracts on the real Go code discharged by z3/cvc5 for part of the property; labelled bounded drivers for the rest"
CLAIMS = {}
for _p in ["C01","C02","C03","C05","C06","C12","C15","C16","C21"]:
    CLAIMS[_p] = {"note": PROVED}
CLAIMS["C04"] = {"level": "exploration", "technique": MT, "note": MIXED % ("one step of the message scanner and of the argument scanner, skipping of unread arguments", "the loop over the messages of a NOTIFY with the handler and the ACK")}
CLAIMS["C07"] = {"level": "exploration", "technique": MT, "note": MIXED % ("the frame header encoder, the frame writer (declared length, bytes, one write) and the buffer beneath them", "the frames the engine composes with them (hello, ack, disconnect)")}
CLAIMS["C11"] = {"level": "exploration", "technique": MT, "note": MIXED % ("the queue: construction, Put and Get against a monitor invariant (FIFO, bounds, state only under the lock, every wait inside its condition loop, wake-up after every change)", "the scheduling loop around the queue, stress runs of the real queue with the race detector off")}
CLAIMS["C13"] = {"level": "exploration", "technique": MT, "note": MIXED % ("the header of every definition (identifier, name, key type, key length, data types, expiry) reads back as written, definitions without data types round trip whole, which data types are rates, encoding never panics and writes only its buffer", "definitions with data types and their periods")}
CLAIMS["C14"] = {"level": "exploration", "technique": MT, "note": MIXED % ("every key type and every data type by itself; the entry update's identifier, expiry, frame and absence of panics", "the key and the data of a whole entry read back together")}
for _p in ["C08","C09","C10","C17","C18","C19","C20","C22"]:
    CLAIMS[_p] = {"note": BOUNDED, "level": "exploration", "technique": BT}
NA = {
 "C23": "liveness (eventual processing) under an unfair-free scheduler cannot be stated as a contract of one call; termination is outside what the verifier decides",
 "C24": "real-time behaviour (heartbeat every three seconds, five second read limit) is about timers and wall-clock time, which no function contract here can express",
}
