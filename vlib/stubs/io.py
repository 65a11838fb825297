"""Stand-in for the streams of io; the other names are those of the library."""


class StringIO:

    def __init__(self, initial_value='', newline='\n'):
        self._s = initial_value or ''
        self._end = False
        self._written = not initial_value

    def write(self, s):
        if not self._written:
            self._s = ''
            self._written = True
        self._s = self._s + s
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def getvalue(self):
        return self._s

    def read(self):
        if self._end:
            return ''
        self._end = True
        return self._s

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def seek(self, pos, whence=0):
        self._end = False

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False
