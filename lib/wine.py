"""Runs driver executables under wine in a private prefix."""
import os, shutil, signal, subprocess, threading

WINE, SERVER = "/usr/lib/wine/wine64", "/usr/lib/wine/wineserver64"


class Wine:
    def __init__(self, scratch):
        self.prefix = os.path.join(scratch, "wine")
        self.prefixes, self.lock, self.fresh = [self.prefix], threading.Lock(), 0
        self.env = dict(os.environ)
        self.env.pop("DISPLAY", None)
        self.env.update(WINEPREFIX=self.prefix, WINEDEBUG="-all", HOME=scratch,
                        WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=")
        self.thread = threading.Thread(target=self._boot)
        self.thread.start()

    def _boot(self):
        os.makedirs(self.env["WINEPREFIX"], exist_ok=True)
        self.boot = subprocess.run(["timeout", "200", WINE, "wineboot", "-i"], env=self.env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def run(self, exe, args, cwd, timeout):
        """Returns the exit code, or None on timeout."""
        self.thread.join()
        p = subprocess.Popen([WINE, exe] + list(args), cwd=cwd, env=self.env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return None

    def again(self, n):
        """After a failed start: the second time with a new prefix."""
        if n < 2:
            return
        with self.lock:
            if n <= self.fresh:
                return
            self.fresh = n
            self.env["WINEPREFIX"] = self.prefix + str(n)
            self.prefixes.append(self.env["WINEPREFIX"])
            self._boot()

    def close(self):
        self.thread.join()
        subprocess.run([SERVER, "-k"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for p in self.prefixes:
            shutil.rmtree(p, ignore_errors=True)
