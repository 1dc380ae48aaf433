package main

func checks() map[string]check {
	std := goSize{3, 2, 200}
	deep := goSize{20, 3, 800}
	return map[string]check{
		"C01": {run: goModel("numbers", "verdict", std, deep)},
		"C02": {run: goModel("strings", "verdict", std, deep)},
		"C03": {run: goModel("formats", "verdict", std, deep)},
		"C04": {run: goModel("bytes", "verdict", std, deep)},
		"C05": {run: goModel("enums", "verdict", std, deep)},
		"C06": {run: goModel("messages", "verdict", std, deep)},
		"C07": {run: goModel("repeated", "verdict", std, deep)},
		"C08": {run: goModel("maps", "verdict", std, deep)},
		"C09": {run: goModel("oneofs", "verdict", std, deep)},
		"C10": {run: goModel("wrappers", "verdict", std, deep)},
		"C11": {run: goModel("any", "verdict", std, deep)},
		"C12": {run: goModel("durations", "verdict", std, deep)},
		"C13": {run: goModel("timestamps", "verdict", std, deep)},
		"C14": {run: goModel("mix", "structure", std, deep)},
		"C15": {run: rulesCheck},
		"C16": {run: exoticCheck},
		"C17": {run: pathsCheck},
		"C18": {run: ccModel([]string{"numbers", "strings", "formats", "bytes", "enums"}, goSize{1, 1, 100}, goSize{6, 2, 500})},
		"C19": {run: ccModel([]string{"messages", "repeated", "maps", "oneofs", "wrappers", "any", "durations", "mix"}, goSize{1, 1, 100}, goSize{6, 2, 500})},
		"C20": {run: helpersCheck},
		"C22": {run: javaLibCheck},
		"C23": {run: javaModel([]string{"numbers", "strings", "formats", "bytes", "enums"}, goSize{1, 1, 100}, goSize{6, 2, 500})},
		"C24": {run: pyModel([]string{"numbers", "strings", "formats", "bytes", "enums"}, goSize{1, 1, 100}, goSize{6, 2, 500})},
		"C27": {run: pyModel([]string{"messages", "repeated", "maps", "oneofs", "wrappers", "any", "durations", "timestamps", "mix"}, goSize{1, 1, 100}, goSize{6, 1, 400})},
		"C25": {run: javaModel([]string{"messages", "repeated", "maps", "oneofs", "wrappers", "any", "durations", "timestamps", "mix"}, goSize{1, 1, 100}, goSize{6, 2, 500})},
		"C26": {run: unusualCheck},
		"C28": {run: grpcCheck},
		"C21": {run: goModel("mix", "purity", std, deep)},
	}
}
