package hsms

// Carriers of the theorems about decoding and round trips (contracts/dec.gvc, contracts/rt.gvc).
func lemmaDecode()  {}
func lemmaNumbers() {}
func lemmaBytes()   {}
func lemmaLeavesA() {}
func lemmaLeavesB() {}
func lemmaLists()   {}
