package stub

// Injected by the verification harness: a tiny set of stubs instead of the full phpstorm-stubs tree,
// so that a server starts in milliseconds.

type verifStubber struct{ files [][2]string }

func (s *verifStubber) Name() string { return "phpstorm-stubs" }

func (s *verifStubber) Walk(fn WalkFunc) {
	for _, f := range s.files {
		fn(f[0], []byte(f[1]))
	}
}

func (s *verifStubber) GetURI(path string) string { return s.Name() + "://" + path }

// VerifSetStubs replaces the stubs.
func VerifSetStubs(files [][2]string) {
	stubbers = []Stubber{&verifStubber{files}}
	stubberPrefixes = nil
}

func init() { VerifSetStubs([][2]string{{"core/core.php", "<?php\nfunction strlen($string) {}\n"}}) }
