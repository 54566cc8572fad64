"""Two calls under way at once, as in two threads, with a schedule that is part of the inputs.

The first call runs up to its k1-th point, then the second one up to its k2-th point, then the first one to its end
and the second one to its end. Points are where a call asks its source for more or hands something to its sink."""
import threading


class Killed(BaseException):
    pass


class Two(object):
    def __init__(self, k1, k2):
        self.k, self.n = (k1, k2), [0, 0]
        self.thread, self.result, self.ended, self.kill = None, None, False, False
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)

    def point(self, who):
        if self.ended and who == 1:
            return
        n = self.n[who]
        self.n[who] += 1
        if n != self.k[who]:
            return
        if who == 0:
            self._second()
        elif threading.current_thread() is self.thread:
            self.back.release()
            self.go.acquire()
            if self.kill:
                raise Killed()

    def points(self, who):
        return lambda: self.point(who)

    def _body(self, fn):
        self.go.acquire()
        try:
            if not self.kill:
                self.result = (fn(), None)
        except BaseException as ex:
            self.result = (None, ex)
        self.ended = True
        self.back.release()

    def _second(self):
        """Let the second call run until it pauses or ends."""
        if self.ended:
            return
        self.go.release()
        self.back.acquire()
        if self.ended and self.result[1] is not None:
            raise self.result[1]

    def run(self, first, second):
        self.thread = threading.Thread(target=self._body, args=(second,))
        self.thread.daemon = True
        self.thread.start()
        try:
            a = first()
            while not self.ended:
                self._second()
            return a, self.result[0]
        finally:
            if not self.ended:
                self.kill = True
                self.go.release()
            self.thread.join(5)
