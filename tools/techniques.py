REASON = {
 "N01": "pure functions of their arguments: no scheduling, time, I/O, randomness or history for a simulator to control; deciding them is input enumeration or proof, not simulation (their effects are covered indirectly wherever the worlds compare results with the reference arithmetic)",
 "N02": "a deterministic computation on a parameter literal with no history, fault or schedule; nothing for a simulator to control",
 "N03": "numerical accuracy of a pure function of the input vector; no schedule, history or fault enters (history dependence of encoders is C03)",
 "N04": "timing and memory-access secrecy are properties of the machine-level execution, which the simulation abstracts away",
}
