"""A stand-in for PySide6, just enough for tools/hsmdebugger: signals (queued across threads), item models, settings, widgets described by .ui files. No display, no files written by settings."""
import inspect
import sys
import threading
import types
import xml.etree.ElementTree as ET

MAIN = threading.main_thread()
QUEUE = []            # signals emitted by other threads: [(bound signal, args)]
ERRORS = []           # exceptions which reached the toolkit
MESSAGES = []         # message boxes shown
SENDERS = []
SCRIPT = {}           # answers of dialogs
STORE = {}            # QSettings: {key: value}
QLOCK = threading.Lock()


class Anything:
    """Unknown names of the toolkit: everything is allowed and does nothing"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __or__(self, o):
        return self

    def __bool__(self):
        return False


def call_slot(sender, f, args):
    n = len(args)
    try:
        ps = inspect.signature(f).parameters.values()
        if not any(p.kind == p.VAR_POSITIONAL for p in ps):
            n = min(n, sum(p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) for p in ps))
    except (TypeError, ValueError):
        pass
    SENDERS.append(sender)
    try:
        f(*args[:n])
    except Exception:
        import traceback
        ERRORS.append(traceback.format_exc()[-1200:])
    finally:
        SENDERS.pop()


class BoundSignal:
    def __init__(self, owner):
        self.owner, self.slots = owner, []

    def connect(self, f, *a):
        self.slots.append(f)

    def disconnect(self, f=None):
        self.slots = [x for x in self.slots if f is not None and x != f]

    def deliver(self, args):
        for f in list(self.slots):
            call_slot(self.owner, f, args)

    def emit(self, *args):
        if threading.current_thread() is MAIN:
            self.deliver(args)
        else:
            with QLOCK:
                QUEUE.append((self, args))


def pump(n=None):
    while QUEUE and (n is None or n > 0):
        with QLOCK:
            s, a = QUEUE.pop(0)
        s.deliver(a)
        n = None if n is None else n - 1


class Signal:
    def __init__(self, *types, **k):
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.setdefault("_signal_" + str(self.name), BoundSignal(obj))


def Slot(*a, **k):
    return lambda f: f


class QObject:
    def __init__(self, *a, **k):
        pass

    def sender(self):
        return SENDERS[-1] if SENDERS else None


class ToolkitObject(QObject):
    """classes of the toolkit have many more methods"""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return Anything()


class Qt(Anything):
    WA_TranslucentBackground, LeftButton, Horizontal, Vertical, DisplayRole, UserRole = 120, 1, 1, 2, 0, 256
    CursorShape = Anything()
    QueuedConnection, AutoConnection = 2, 0


class QFile:
    ReadOnly = 1

    def __init__(self, path):
        self.path = path

    def open(self, mode):
        return True

    def close(self):
        pass


class QSettings:
    IniFormat = 1

    def __init__(self, path=None, fmt=None):
        self.group = ""

    def beginGroup(self, g):
        self.group += g + "/"

    def endGroup(self):
        self.group = "/".join(self.group.split("/")[:-2])
        self.group += "/" if self.group else ""

    def childKeys(self):
        n = len(self.group)
        return sorted({k[n:] for k in STORE if k.startswith(self.group) and "/" not in k[n:]})

    def allKeys(self):
        n = len(self.group)
        return sorted(k[n:] for k in STORE if k.startswith(self.group))

    def contains(self, k):
        return self.group + k in STORE

    def value(self, k, default=None, type=None):
        return STORE.get(self.group + k, default)

    def setValue(self, k, v):
        STORE[self.group + k] = v

    def remove(self, k):
        p = self.group + k
        for x in [x for x in STORE if x == p or x.startswith(p + "/") or k == "" and x.startswith(self.group)]:
            del STORE[x]

    def sync(self):
        pass


def reload_settings():
    """what a new process reads back from the file"""
    for k, v in list(STORE.items()):
        STORE[k] = ("true" if v else "false") if isinstance(v, bool) else str(v)


# ---------------------------------------------------------------------------------------------------------------- models
class QModelIndex:
    def __init__(self, model=None, r=-1, c=-1):
        self.m, self.r, self.c = model, r, c

    def row(self):
        return self.r

    def column(self):
        return self.c

    def model(self):
        return self.m

    def parent(self):
        return QModelIndex()

    def isValid(self):
        return self.r >= 0

    def data(self, role=0):
        return self.m.data(self, role) if self.m is not None else None

    def sibling(self, r, c):
        return self.m.index(r, c)

    def siblingAtColumn(self, c):
        return self.m.index(self.r, c)


class QStandardItem:
    def __init__(self, text=""):
        if not isinstance(text, str):
            raise TypeError("QStandardItem(%r)" % (text,))
        self._text = text

    def text(self):
        return self._text

    def setText(self, t):
        self._text = t

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return Anything()


class QStandardItemModel(ToolkitObject):
    def __init__(self, *a):
        self.items, self.labels, self.proxies = [], [], []

    def clear(self):
        self.items, self.labels = [], []
        for p in self.proxies:
            p.map = []

    def setHorizontalHeaderLabels(self, x):
        self.labels = list(x)

    def appendRow(self, items):
        self.items.append(list(items))
        for p in self.proxies:
            p.consider(len(self.items) - 1)

    def removeRows(self, row, count, parent=None):
        del self.items[row:row + count]
        for p in self.proxies:
            p.compute()
        return True

    def setRowCount(self, n):
        del self.items[n:]
        for p in self.proxies:
            p.compute()

    def rowCount(self, parent=None):
        return len(self.items)

    def columnCount(self, parent=None):
        return max([len(self.labels)] + [len(x) for x in self.items])

    def index(self, r, c, parent=None):
        return QModelIndex(self, r, c) if 0 <= r < len(self.items) and 0 <= c < len(self.items[r]) else QModelIndex()

    def data(self, i, role=0):
        return self.items[i.r][i.c].text() if i.isValid() else None

    def item(self, r, c=0):
        return self.items[r][c] if 0 <= r < len(self.items) else None


class QSortFilterProxyModel(ToolkitObject):
    def __init__(self, *a):
        self.src, self.map = None, []

    def setSourceModel(self, m):
        self.src = m
        m.proxies.append(self)
        self.compute()

    def sourceModel(self):
        return self.src

    def accepts(self, r):
        try:
            return bool(self.filterAcceptsRow(r, QModelIndex()))
        except Exception:
            import traceback
            ERRORS.append(traceback.format_exc()[-1200:])
            return False

    def consider(self, r):
        if self.accepts(r):
            self.map.append(r)

    def compute(self):
        self.map = [r for r in range(self.src.rowCount())if self.accepts(r)] if self.src is not None else []

    def invalidateFilter(self):
        self.compute()

    invalidate = invalidateRowsFilter = invalidateFilter

    def filterAcceptsRow(self, r, parent):
        return True

    def rowCount(self, parent=None):
        return len(self.map)

    def columnCount(self, parent=None):
        return self.src.columnCount()

    def index(self, r, c, parent=None):
        return QModelIndex(self, r, c) if 0 <= r < len(self.map) else QModelIndex()

    def data(self, i, role=0):
        return self.src.data(self.src.index(self.map[i.r], i.c)) if i.isValid() else None

    def mapToSource(self, i):
        return self.src.index(self.map[i.r], i.c) if i.isValid() else QModelIndex()

    def mapFromSource(self, i):
        return QModelIndex(self, self.map.index(i.r), i.c) if i.isValid() and i.r in self.map else QModelIndex()


class QItemSelectionModel(ToolkitObject):
    def __init__(self):
        self.currentRowChanged, self.currentChanged, self.selectionChanged = BoundSignal(self), BoundSignal(self), BoundSignal(self)
        self.cur = QModelIndex()

    def currentIndex(self):
        return self.cur

    def user_select(self, index):
        old, self.cur = self.cur, index
        self.currentChanged.emit(index, old)
        self.currentRowChanged.emit(index, old)


# ---------------------------------------------------------------------------------------------------------------- widgets
class QSize:
    def __init__(self, w=0, h=0):
        self.w, self.h = w, h

    def width(self):
        return self.w

    def height(self):
        return self.h

    def __mul__(self, k):
        return QSize(self.w * k, self.h * k)

    __rmul__ = __mul__


class QPixmap(ToolkitObject):
    def __init__(self, path=None):
        self.path, self.content = path, None
        if path:
            try:
                with open(path, errors="replace") as f:
                    self.content = "failed" if str(path).endswith("failed.png") else f.read()
            except OSError:
                pass

    def size(self):
        return QSize(100, 50) if self.content else QSize()

    def isNull(self):
        return not self.content

    def width(self):
        return self.size().width()

    def height(self):
        return self.size().height()


class QIcon(Anything):
    pass


class QMovie(ToolkitObject):
    def start(self):
        pass


class QColor:
    HexRgb = 0

    def __init__(self, s=""):
        self.s = s

    def isValid(self):
        import re
        return bool(re.match(r"^#[0-9a-fA-F]{6}$", self.s))

    def name(self, fmt=None):
        return self.s.lower()


class QWidget(ToolkitObject):
    def __init__(self, *a, **k):
        self._visible, self._enabled, self._fixed = True, True, None

    def show(self):
        self._visible = True

    def hide(self):
        self._visible = False

    def setVisible(self, v):
        self._visible = bool(v)

    def isVisible(self):
        return self._visible

    def setEnabled(self, e):
        self._enabled = bool(e)

    def isEnabled(self):
        return self._enabled

    def setFixedSize(self, *a):
        self._fixed = a[0] if len(a) == 1 else QSize(*a)

    def size(self):
        return QSize(800, 600)

    def layout(self):
        return Layout()


class Layout(Anything):
    def contentsMargins(self):
        return Margins()


class Margins(Anything):
    def top(self):
        return 9

    bottom = left = right = top


class QLabel(QWidget):
    def __init__(self, text="", *a):
        QWidget.__init__(self)
        self._text, self._pixmap, self._movie = text if isinstance(text, str) else "", QPixmap(), QMovie()

    def setText(self, t):
        if not isinstance(t, str):
            raise TypeError("QLabel.setText(%r)" % (t,))
        self._text = t

    def text(self):
        return self._text

    def setPixmap(self, p):
        self._pixmap = p

    def pixmap(self):
        return self._pixmap

    def setMovie(self, m):
        self._movie = m

    def movie(self):
        return self._movie


class QLineEdit(QWidget):
    def __init__(self, *a):
        QWidget.__init__(self)
        self._text, self.textChanged, self.textEdited = "", BoundSignal(self), BoundSignal(self)

    def setText(self, t):
        if not isinstance(t, str):
            raise TypeError("QLineEdit.setText(%r)" % (t,))
        if t != self._text:
            self._text = t
            self.textChanged.emit(t)

    def text(self):
        return self._text


class QCheckBox(QWidget):
    def __init__(self, *a):
        QWidget.__init__(self)
        self._checked = False

    def setChecked(self, v):
        if not isinstance(v, bool):
            raise TypeError("setChecked(%r)" % (v,))
        self._checked = v

    def isChecked(self):
        return self._checked


class QPushButton(QWidget):
    def __init__(self, *a):
        QWidget.__init__(self)
        self.clicked = BoundSignal(self)


class QSlider(QWidget):
    def __init__(self, *a):
        QWidget.__init__(self)
        self._v, self._min, self._max, self.valueChanged, self.sliderMoved = 0, 0, 99, BoundSignal(self), BoundSignal(self)

    def value(self):
        return self._v

    def setValue(self, v):
        v = max(self._min, min(self._max, int(v)))
        if v != self._v:
            self._v = v
            self.valueChanged.emit(v)

    def setMaximum(self, m):
        self._max = m
        self._min = min(self._min, m)
        self.setValue(self._v)

    def setMinimum(self, m):
        self._min = m
        self._max = max(self._max, m)
        self.setValue(self._v)

    def setRange(self, a, b):
        self._min, self._max = a, max(a, b)
        self.setValue(self._v)

    def maximum(self):
        return self._max

    def minimum(self):
        return self._min


class QScrollArea(QWidget):
    pass


class QTableView(QWidget):
    def setModel(self, m):
        self._model, self._sel = m, QItemSelectionModel()

    def model(self):
        return self._model

    def selectionModel(self):
        return self._sel


class QAction(ToolkitObject):
    def __init__(self, text="", parent=None):
        self._text, self._enabled, self._checkable, self._checked = text if isinstance(text, str) else "", True, False, False
        self.triggered, self.toggled = BoundSignal(self), BoundSignal(self)

    def text(self):
        return self._text

    def setText(self, t):
        self._text = t

    def setData(self, d):
        self._data = d

    def data(self):
        return self.__dict__.get("_data")

    def setEnabled(self, e):
        self._enabled = bool(e)

    def isEnabled(self):
        return self._enabled

    def setCheckable(self, c):
        self._checkable = bool(c)

    def isChecked(self):
        return self._checked

    def setChecked(self, c):
        if bool(c) != self._checked:
            self._checked = bool(c)
            self.toggled.emit(self._checked)

    def user_trigger(self):
        """-> False if the action is disabled"""
        if not self._enabled:
            return False
        if self._checkable:
            self.setChecked(not self._checked)
        self.triggered.emit(self._checked)
        return True


class QMenu(QWidget):
    def __init__(self, *a):
        QWidget.__init__(self)
        self.list = []

    def clear(self):
        self.list = []

    def addAction(self, a, *rest):
        if isinstance(a, str):
            a = QAction(a)
        self.list.append(a)
        return a

    def addSeparator(self):
        self.list.append(None)

    def actions(self):
        return [a for a in self.list if a is not None]


class QMainWindow(QWidget):
    def __init__(self, *a):
        QWidget.__init__(self)
        self._title = ""

    def setWindowTitle(self, t):
        self._title = t


class QDialog(QWidget):
    Accepted, Rejected = 1, 0

    def exec_(self):
        return SCRIPT["settings"](self)

    exec = exec_


class QDialogButtonBox(QWidget):
    RestoreDefaults, Ok, Cancel = 0x8000000, 0x400, 0x400000

    def __init__(self, *a):
        QWidget.__init__(self)
        self.clicked, self.accepted, self.rejected = BoundSignal(self), BoundSignal(self), BoundSignal(self)

    def standardButton(self, b):
        return b


class QMessageBox(Anything):
    Ok = 0x400

    @staticmethod
    def critical(parent, title, text, *a, **k):
        MESSAGES.append([title, str(text)[:300]])
        return QMessageBox.Ok

    warning = information = critical


class QInputDialog(Anything):
    @staticmethod
    def getInt(parent, title, label, value=0, minValue=-2147483647, maxValue=2147483647, step=1, flags=None):
        SCRIPT["int_offered"] = [value, minValue, maxValue]
        v = SCRIPT["int"]
        if v is None:
            return (value, False)
        return (max(minValue, min(maxValue, v)), True)


class QFileDialog(Anything):
    DontUseNativeDialog = 1

    def exec_(self):
        return 1 if SCRIPT["file"] else 0

    exec = exec_

    def selectedFiles(self):
        return [SCRIPT["file"]]

    @staticmethod
    def getOpenFileName(*a, **k):
        return (SCRIPT["file"] or "", "")


class QColorDialog(Anything):
    @staticmethod
    def getColor(initial=None, parent=None, *a, **k):
        return QColor(SCRIPT["color"])


class QApplication(Anything):
    @staticmethod
    def activeWindow():
        return None


class QUiLoader:
    def __init__(self):
        self.custom = {}

    def registerCustomWidget(self, cls):
        self.custom[cls.__name__] = cls

    def load(self, f, parent=None):
        top = ET.parse(f.path).getroot().find("widget")

        def make(e):
            cls = self.custom.get(e.get("class")) or globals().get(e.get("class"), QWidget)
            w = cls() if isinstance(cls, type) else QWidget()
            return w

        window = make(top)
        for e in top.iter("widget"):
            if e is not top:
                setattr(window, e.get("name"), make(e))
        for e in top.iter("action"):
            a = QAction()
            for p in e.findall("property"):
                v = "".join(p.itertext()).strip()
                if p.get("name") == "checkable":
                    a._checkable = v == "true"
                elif p.get("name") == "checked":
                    a._checked = v == "true"
                elif p.get("name") == "text":
                    a._text = v
            setattr(window, e.get("name"), a)
        return window


def install():
    for name in ("QtCore", "QtWidgets", "QtGui", "QtUiTools"):
        m = types.ModuleType("PySide6." + name)
        for k, v in list(globals().items()):
            if isinstance(v, type) or k == "Slot":
                setattr(m, k, v)
        m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else Anything
        sys.modules["PySide6." + name] = m
    top = types.ModuleType("PySide6")
    for name in ("QtCore", "QtWidgets", "QtGui", "QtUiTools"):
        setattr(top, name, sys.modules["PySide6." + name])
    sys.modules["PySide6"] = top
