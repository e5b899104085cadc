package hx

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/analysis/storage"
)

// Keys are those in every database below a store's directory, after it was closed.
func Keys(dir string) (out []string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || fi.Name() != "CURRENT" {
			return nil
		}
		db, err := storage.NewGoLevelDB(filepath.Dir(p))
		if err != nil {
			panic(err)
		}
		defer db.Close()
		rel, _ := filepath.Rel(dir, filepath.Dir(p))
		db.PrefixStream(nil, func(it storage.Iterator) { out = append(out, fmt.Sprintf("%s: %q", rel, it.Key())) })
		return nil
	})
	sort.Strings(out)
	return
}

// Stored are the keys in a new store after the steps.
func Stored(scratch string, steps func(s *analysis.Store, reopen func() *analysis.Store)) []string {
	d := Dir(scratch)
	defer os.RemoveAll(d)
	fs := NewMemFS()
	s := Open(fs, d)
	cur := s
	steps(s, func() *analysis.Store {
		cur.Close()
		cur = Open(fs, d)
		return cur
	})
	cur.Close()
	return Keys(d)
}

// Missing are those of a which are not in b.
func Missing(a, b []string) (out []string) {
	in := map[string]bool{}
	for _, x := range b {
		in[x] = true
	}
	for _, x := range a {
		if !in[x] {
			out = append(out, x)
		}
	}
	return
}

// Wordy has names of many words, of every kind.
const Wordy = `<?php
class OneTwoThreeFourFiveSixSevenEightNineTenElevenTwelve { const THE_ONE_AND_ONLY_LIMIT_OF_ALL_THESE_WORDS = 1; public $oneTwoThreeFourFiveSixSevenEightNine; function oneTwoThreeFourFiveSixSevenEightNine() {} }
interface OneTwoThreeFourFiveSixSevenEightNineTenElevenInterface {}
trait OneTwoThreeFourFiveSixSevenEightNineTenElevenTrait {}
function one_two_three_four_five_six_seven_eight_nine_ten() {}
const ONE_TWO_THREE_FOUR_FIVE_SIX_SEVEN_EIGHT_NINE = 1;
define('ONE_TWO_THREE_FOUR_FIVE_SIX_SEVEN_EIGHT_DEFINED', 1);
`
