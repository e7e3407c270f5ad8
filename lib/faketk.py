"""A tkinter without a screen: widgets that remember what they were given, a canvas that remembers what is
drawn on it, and answers to the dialogs from a queue."""
import sys
import types


class Widget(object):
    def __init__(self, master=None, **kw):
        self.master, self.kw = master, dict(kw)
        self.bound = {}
        root = self
        while getattr(root, 'master', None) is not None:
            root = root.master
        self.top = root
        if not hasattr(root, 'widgets'):
            root.widgets = []
        root.widgets.append(self)

    def configure(self, **kw):
        self.kw.update(kw)
    config = configure

    def bind(self, what, fn):
        self.bound[what] = fn

    def __setitem__(self, k, v):
        self.kw[k] = v

    def __getitem__(self, k):
        return self.kw[k]

    def cget(self, k):
        return self.kw[k]

    def destroy(self):
        pass

    def _none(self, *a, **k):
        return None
    grid = pack = place = title = resizable = set = xview = yview = quit = mainloop = update = update_idletasks = _none
    geometry = minsize = maxsize = focus = focus_set = deselect = invoke = columnconfigure = rowconfigure = protocol = _none


class Tk(Widget):
    def __init__(self):
        self.answers = []
        Widget.__init__(self)

    def wait_window(self, top):
        entry = [w for w in self.widgets if isinstance(w, Entry) and w.master is top][-1]
        entry.text = self.answers.pop(0)
        [w for w in self.widgets if isinstance(w, Button) and w.master is top][-1].kw['command']()


class Frame(Widget):
    pass


class Toplevel(Widget):
    pass


class Label(Widget):
    pass


class Button(Widget):
    pass


class Checkbutton(Widget):
    pass


class Radiobutton(Widget):
    pass


class Scrollbar(Widget):
    pass


class Entry(Widget):
    text = ''

    def get(self):
        return self.text


class Variable(object):
    kind, default = str, ''

    def __init__(self, master=None, value=None, name=None):
        self.value = self.default if value is None else value

    def get(self):
        return self.kind(self.value)

    def set(self, v):
        self.value = v


class StringVar(Variable):
    pass


class DoubleVar(Variable):
    kind, default = float, 0.


class IntVar(Variable):
    kind, default = int, 0


class BooleanVar(Variable):
    kind, default = bool, False


class Canvas(Widget):
    def __init__(self, master=None, **kw):
        Widget.__init__(self, master, **kw)
        self.items, self.next, self.scroll = {}, 1, (0, 0)

    def _new(self, kind, xy, kw):
        k, self.next = self.next, self.next+1
        xy = list(xy[0]) if len(xy) == 1 else list(xy)
        x1, y1, x2, y2 = [float(v) for v in xy]
        self.items[k] = (kind, [min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)], dict(kw))
        return k

    def create_rectangle(self, *xy, **kw):
        return self._new(0, xy, kw)

    def create_oval(self, *xy, **kw):
        return self._new(1, xy, kw)

    def _pick(self, what):
        if what == 'all':
            return list(self.items)
        if isinstance(what, str):
            return [k for k, (_, _, kw) in self.items.items() if kw.get('tags') == what]
        return [what] if what in self.items else []

    def delete(self, *what):
        for w in what:
            for k in self._pick(w):
                del self.items[k]

    def find_all(self):
        return tuple(self.items)

    def find_withtag(self, what):
        return tuple(self._pick(what))

    def coords(self, k, *xy):
        if not xy:
            return list(self.items[k][1]) if k in self.items else []
        if k in self.items:
            xy = list(xy[0]) if len(xy) == 1 else list(xy)
            self.items[k] = (self.items[k][0], [float(v) for v in xy], self.items[k][2])

    def move(self, k, dx, dy):
        for j in self._pick(k):
            c = self.items[j][1]
            self.coords(j, c[0]+dx, c[1]+dy, c[2]+dx, c[3]+dy)

    def canvasx(self, x, *a):
        return float(x + self.scroll[0])

    def canvasy(self, y, *a):
        return float(y + self.scroll[1])


class Event(object):
    def __init__(self, x, y):
        self.x, self.y = x, y


def install():
    """before omgtools is imported"""
    tk = types.ModuleType('tkinter')
    for c in (Tk, Frame, Toplevel, Label, Button, Checkbutton, Radiobutton, Scrollbar, Entry, Variable, StringVar, DoubleVar, IntVar,
              BooleanVar, Canvas):
        setattr(tk, c.__name__, c)
    for k, v in dict(HORIZONTAL='horizontal', VERTICAL='vertical', N='n', S='s', E='e', W='w', END='end', LEFT='left', RIGHT='right',
                     TOP='top', BOTTOM='bottom', BOTH='both', X='x', Y='y', YES=1, NO=0).items():
        setattr(tk, k, v)
    tk.TclError = RuntimeError
    fd, mb = types.ModuleType('tkinter.filedialog'), types.ModuleType('tkinter.messagebox')
    fd.answers = []
    fd.askopenfilename = lambda *a, **k: fd.answers.pop(0)
    mb.shown = []
    for k in ('showerror', 'showinfo', 'showwarning'):
        setattr(mb, k, lambda *a, **k: mb.shown.append(a))
    tk.filedialog, tk.messagebox = fd, mb
    sys.modules['tkinter'], sys.modules['tkinter.filedialog'], sys.modules['tkinter.messagebox'] = tk, fd, mb
    return tk
