"""Semantics of matplotlib.pyplot as a recorder: what is drawn, on which axes.  A
method that is not modelled is recorded in `unknown`, so that checks do not decide."""


class Line2D:
    def __init__(self, x, y, fmt, kwargs):
        self.x = x
        self.y = y
        self.fmt = fmt
        self.kwargs = kwargs

    def get_xdata(self):
        return self.x

    def get_ydata(self):
        return self.y


class AxesImage:
    def __init__(self, axes, data, kwargs):
        self.axes = axes
        self.data = data
        self.kwargs = kwargs

    def get_array(self):
        return self.data

    def get_extent(self):
        return self.kwargs.get("extent")

    def set_extent(self, extent):
        self.kwargs["extent"] = extent

    def set_cmap(self, cmap):
        self.kwargs["cmap"] = cmap

    def set_data(self, data):
        self.data = data


class Axes:
    def __init__(self):
        self.lines = []
        self.images = []
        self.limits = {}
        self.visible = True
        self.unknown = []

    def plot(self, *args, **kwargs):
        args = list(args)
        out = []
        if len(args) == 1:
            args = [np.arange(len(args[0]))] + args
        while args:
            x = np.asarray(args.pop(0))
            y = np.asarray(args.pop(0))
            fmt = args.pop(0) if args and isinstance(args[0], str) else None
            if y.ndim == 2:
                for j in range(y.shape[1]):
                    out.append(Line2D(x[:, j] if x.ndim == 2 else x, y[:, j], fmt, dict(kwargs)))
            else:
                out.append(Line2D(x, y, fmt, dict(kwargs)))
        for l in out:
            self.lines.append(l)
        return out

    def imshow(self, X, cmap=None, **kwargs):
        if cmap is not None:
            kwargs["cmap"] = cmap
        im = AxesImage(self, X, kwargs)
        self.images.append(im)
        return im

    def _limit(self, axis, args, kwargs):
        a = list(args)
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = list(a[0])
        lo = a[0] if len(a) > 0 else kwargs.get("left", kwargs.get("bottom", kwargs.get(axis + "min")))
        hi = a[1] if len(a) > 1 else kwargs.get("right", kwargs.get("top", kwargs.get(axis + "max")))
        self.limits[axis] = (lo, hi)

    def set_xlim(self, *args, **kwargs):
        self._limit("x", args, kwargs)

    def set_ylim(self, *args, **kwargs):
        self._limit("y", args, kwargs)

    def set_axis_off(self):
        self.visible = False

    def set_axis_on(self):
        self.visible = True

    def axis(self, arg=None, **kwargs):
        if arg is False or arg == "off":
            self.visible = False
        elif arg is True or arg == "on":
            self.visible = True
        elif isinstance(arg, (tuple, list)):
            self.limits["x"] = (arg[0], arg[1])
            self.limits["y"] = (arg[2], arg[3])
        elif arg is not None or kwargs:
            self.unknown.append("axis")

    def set(self, **kwargs):
        for k, v in kwargs.items():
            if k == "xlim":
                self.set_xlim(v)
            elif k == "ylim":
                self.set_ylim(v)
            elif k not in ("title", "xlabel", "ylabel", "aspect", "xticks", "yticks"):
                self.unknown.append(k)

    def set_title(self, *args, **kwargs):
        pass

    def set_xlabel(self, *args, **kwargs):
        pass

    def set_ylabel(self, *args, **kwargs):
        pass

    def set_aspect(self, *args, **kwargs):
        pass

    def set_xticks(self, *args, **kwargs):
        pass

    def set_yticks(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.unknown.append(name)
        return lambda *args, **kwargs: None


class _State:
    current = None


def _new():
    _State.current = Axes()
    return _State.current


def axes(*args, **kwargs):
    return _new()


def subplot(*args, **kwargs):
    return _new()


def gca():
    if _State.current is None:
        return _new()
    return _State.current


def sca(ax):
    _State.current = ax


def figure(*args, **kwargs):
    _State.current = None
    return None


def plot(*args, **kwargs):
    return gca().plot(*args, **kwargs)


def imshow(*args, **kwargs):
    return gca().imshow(*args, **kwargs)


def xlim(*args, **kwargs):
    return gca().set_xlim(*args, **kwargs)


def ylim(*args, **kwargs):
    return gca().set_ylim(*args, **kwargs)


def axis(*args, **kwargs):
    return gca().axis(*args, **kwargs)


def close(*args, **kwargs):
    _State.current = None


def show(*args, **kwargs):
    pass
