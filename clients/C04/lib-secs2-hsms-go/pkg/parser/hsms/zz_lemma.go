package hsms

// Carrier of the theorems about decoding (contracts/dec.gvc).
func lemmaDecode() {}
