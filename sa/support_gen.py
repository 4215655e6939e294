"""Stand-ins for the command line and text files, analysed together with the generator script (never executed)."""

FILES = []


class Namespace:
    pass


class ArgumentParser:
    def __init__(self, *args, **kwargs):
        self.names = []

    def add_argument(self, *names, **kwargs):
        name = names[-1]
        if 'dest' in kwargs:
            name = kwargs['dest']
        while name.startswith('-'):
            name = name[1:]
        self.names.append(name.replace('-', '_'))

    def parse_args(self, args=None, namespace=None):
        result = Namespace()
        for name in self.names:
            setattr(result, name, 'output.py')
        return result


class TextFile:
    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)
        return len(text)

    def writelines(self, lines):
        for x in lines:
            self.parts.append(x)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


def open(*args, **kwargs):
    f = TextFile()
    FILES.append(f)
    return f


def written():
    return ''.join(''.join(f.parts) for f in FILES)
