"""A simulated display: a matplotlib backend whose timer, redraws, resizes and event loop are driven by the simulation, and
a simulated movie writer. Chosen through matplotlib's own backend and writer registries."""
import matplotlib.animation as animation
from matplotlib.backend_bases import DrawEvent, FigureCanvasBase, FigureManagerBase, ResizeEvent, TimerBase
from matplotlib.backends.backend_template import RendererTemplate


class Clock:
    now = 0          # simulated milliseconds
    timers = []
    loop = None      # what plt.show() does


class SimTimer(TimerBase):
    def __init__(self, *a, **k):
        self.running = False
        super().__init__(*a, **k)
        Clock.timers.append(self)

    def _timer_start(self):
        self.running = True

    def _timer_stop(self):
        self.running = False

    def fire(self):
        if self.running:
            Clock.now += self.interval
            self._on_timer()
            return True
        return False


class SimCanvas(FigureCanvasBase):
    _timer_cls = SimTimer
    manager_class = FigureManagerBase
    filetypes = {"sim": "simulated"}
    render = False         # whether the artists are really walked through
    immediate = True       # whether an idle draw happens at once or when the loop gets to it

    def get_renderer(self):
        return RendererTemplate(self.figure.dpi)

    def draw(self):
        self.idle = False
        if SimCanvas.render:
            self.figure.draw(self.get_renderer())      # sends the draw event itself
        else:
            DrawEvent("draw_event", self, self.get_renderer())._process()

    def draw_idle(self, *a, **k):
        if SimCanvas.immediate and not getattr(self, "drawing", False):
            self.drawing = True
            try:
                self.draw()
            finally:
                self.drawing = False
        else:
            self.idle = True

    def flush(self):
        if getattr(self, "idle", False):
            self.draw()

    def copy_from_bbox(self, bbox):
        return "background"

    def restore_region(self, *a, **k):
        pass

    def blit(self, *a, **k):
        pass

    def print_sim(self, *a, **k):
        self.draw()

    def get_default_filetype(self):
        return "sim"

    def resized(self, scale):
        w, h = self.figure.get_size_inches()
        self.figure.set_size_inches(w * scale, h * scale, forward=False)
        ResizeEvent("resize_event", self)._process()


FigureCanvas = SimCanvas
FigureManager = FigureManagerBase


def show(*a, **k):
    if Clock.loop is not None:
        Clock.loop()


class SimWriter(animation.AbstractMovieWriter):
    """Records frames instead of writing them, and fails when told to."""
    fault = None         # (where, k, exception)
    events = []
    view = None

    @classmethod
    def isAvailable(cls):
        return True

    def hit(self, where):
        f = SimWriter.fault
        if f is not None and f[0] == where:
            if f[1] == 0:
                SimWriter.fault = None
                SimWriter.events.append(("fault", where))
                raise f[2]
            SimWriter.fault = (f[0], f[1] - 1, f[2])

    def __init__(self, fps=5, metadata=None, codec=None, bitrate=None, extra_args=None):
        super().__init__(fps=fps, metadata=metadata, codec=codec, bitrate=bitrate)

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi=dpi)
        SimWriter.events.append(("setup", str(outfile)))
        self.hit("setup")

    def grab_frame(self, **kw):
        self.hit("grab")
        self.fig.savefig("frame", format="sim", dpi=self.dpi, **kw)
        SimWriter.events.append(("frame", SimWriter.view(self.fig)))

    def finish(self):
        self.hit("finish")
        SimWriter.events.append(("finish",))


def install():
    import matplotlib.pyplot as plt
    plt.switch_backend("module://sim.display")
    for name in list(animation.writers._registered) + ["imagemagick", "imagemagick_file", "ffmpeg", "ffmpeg_file", "pillow", "html"]:
        animation.writers._registered[name] = SimWriter


def uninstall():
    import matplotlib.pyplot as plt
    plt.close("all")
    Clock.timers.clear()
    Clock.loop = None
    Clock.now = 0
    SimWriter.fault, SimWriter.events, SimWriter.view = None, [], None
    SimCanvas.immediate, SimCanvas.render = True, False
