package main

// other runs further commands, registered by the files of the other drivers.
var commands = map[string]func(args []string) error{}

func other(args []string) bool {
	f, ok := commands[args[0]]
	if !ok {
		return false
	}
	if err := f(args[1:]); err != nil {
		println("vharness:", err.Error())
		exit(3)
	}
	return true
}
