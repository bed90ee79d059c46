package link

// Carrier of the theorems about linked lists (contracts/session.gvc).
func lemmaLinks() {}
