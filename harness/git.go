package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// git runs git with a fixed environment and reports its exit status.
func git(dir string, stdin string, env []string, args ...string) (out, errOut string, code int) {
	cmd := exec.Command("git", args...)
	cmd.Dir = dir
	cmd.Env = append([]string{
		"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "XDG_CONFIG_HOME=/nonexistent",
		"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_SYSTEM=/dev/null", "GIT_CONFIG_GLOBAL=/dev/null",
		"GIT_ATTR_NOSYSTEM=1", "GIT_CEILING_DIRECTORIES=" + filepath.Dir(dir), "GIT_TERMINAL_PROMPT=0",
		"GIT_AUTHOR_NAME=A", "GIT_AUTHOR_EMAIL=a@x", "GIT_COMMITTER_NAME=C", "GIT_COMMITTER_EMAIL=c@x",
		"LC_ALL=C", "TZ=UTC", "TMPDIR=" + os.TempDir(), "PAGER=cat",
	}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) || ee.ExitCode() < 0 {
			infraf("git %q: %v", args, err)
		}
		code = ee.ExitCode()
	}
	return o.String(), e.String(), code
}

// mustGit is git where a failure is not the library's.
func mustGit(dir string, stdin string, env []string, args ...string) string {
	out, errOut, code := git(dir, stdin, env, args...)
	if code != 0 {
		infraf("git %q: exit %d: %s", args, code, clip(errOut, 800))
	}
	return out
}

func blobID(data string) string {
	h := sha1.New()
	fmt.Fprintf(h, "blob %d\x00%s", len(data), data)
	return hex.EncodeToString(h.Sum(nil))
}

// gitRepo is a bare scratch repository of this worker, renewed now and then.
type gitRepo struct {
	dir  string
	uses int
}

var (
	gitRepoMu sync.Mutex
	gitRepos  = map[string]*gitRepo{}
)

func scratchRepo(kind string, initArgs ...string) string {
	gitRepoMu.Lock()
	defer gitRepoMu.Unlock()
	r := gitRepos[kind]
	if r != nil && r.uses < 250 {
		r.uses++
		return r.dir
	}
	if r != nil {
		os.RemoveAll(r.dir)
	}
	r = &gitRepo{dir: scratch()}
	mustGit(r.dir, "", nil, append([]string{"init", "--quiet", "--bare", "--template="}, append(initArgs, ".")...)...)
	gitRepos[kind] = r
	return r.dir
}
