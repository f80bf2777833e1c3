'''
Simulated display: the event loop of the plotting library, its buttons and mouse, and everything it writes.

The order of frames, button presses, clicks and resizes comes from the schedule of the case. Off (real library) unless
SIM.ui is set to a Display.
'''

import itertools
import os
import resource

from matplotlib import animation, widgets
import matplotlib.pyplot as plt
from matplotlib.artist import Artist
from matplotlib.backend_bases import MouseButton, MouseEvent, ResizeEvent

from sim.seams import EXC, SIM
from sim.util import Violation

_RealAnimation = animation.FuncAnimation
_RealButton = widgets.Button
_real_show = plt.show
_real_savefig = plt.savefig

class Display:
    'what the user and the window system do'

    def __init__(self, events=(), close_at=None, fail=None, real_save=False, max_frames=100000,
                 real_anim=False):
        self.events = list(events)   # list of [kind, argument]: what happens before each frame
        self.close_at = close_at     # the window is closed (recording ends) after so many frames
        self.fail = fail             # {'at': frame, 'exc': name}: a frame / the image cannot be written
        self.real_save = real_save   # images are really written
        self.max_frames = max_frames
        self.real_anim = real_anim   # the library's own animation classes run
        self.anims = []
        self.buttons = {}
        self.frames = 0              # frames delivered
        self.recorded = 0            # frames written by the video writer
        self.images = []             # names of images
        self.idle = 0
        self.pressed = {}
        self.on_frame = None         # called after each frame with the buttons pressed before it
        self.on_click = None         # called after each click
        self.recent = []
        self.showed = 0
        self.quota = None            # bytes which can be written to a file before the disk is full
        self.no_program = False      # the program which encodes videos is missing
        self.on_save = None          # called right before an image is written
        self.on_grab = None          # called when a frame of a video is recorded
        self.forgiving = False       # an exception of a callback is only reported (as windowed programs do)
        self.failed_presses = []

    def count(self, what):
        'note an event which really happened'
        self.pressed[what] = self.pressed.get(what, 0) + 1

    def press(self, name):
        'press a button'

        for label, callbacks in self.buttons.items():
            if label.lower().startswith(name):
                self.count('press_' + name)

                for c in callbacks:
                    try:
                        c(None)
                    except Exception as e: # pylint: disable=broad-except
                        if not self.forgiving:
                            raise
                        self.failed_presses.append((name, e))

    def click(self, anim, which, fx, fy):
        'click into a plot'

        axes = anim.fig.axes
        ax = axes[which % len(axes)]
        px, py = ax.transAxes.transform((fx, fy))
        self.count('click')

        before = len(SIM.text) if SIM.text is not None else 0

        for name in ('button_press_event', 'button_release_event'):
            event = MouseEvent(name, anim.fig.canvas, px, py, MouseButton.LEFT)
            anim.fig.canvas.callbacks.process(name, event)

        if self.on_click and SIM.text is not None:
            x, y = ax.transData.inverted().transform((px, py))
            self.on_click(ax, float(x), float(y), ''.join(SIM.text[before:]))

    def check_artists(self, artists):
        'what the library insists on'

        for a in artists:
            if not isinstance(a, Artist):
                raise Violation('artists', f'the plotting library was given {type(a)} to draw')

    def one_event(self, anim):
        'deliver the next user event'

        if not self.events:
            return

        kind, arg = self.events.pop(0)

        if kind in ('next', 'step', 'save'):
            self.press(kind)
        elif kind == 'click':
            self.click(anim, arg[0], arg[1], arg[2])
        elif kind == 'resize':
            self.count('resize')

            if self.real_anim:
                canvas = anim.fig.canvas
                canvas.callbacks.process('resize_event', ResizeEvent('resize_event', canvas))
                canvas.draw()
                return

            self.check_artists(anim.init_func())
        elif kind == 'wait':
            SIM.clock += arg

    def tick(self, anim, frames):
        'draw a frame; returns False at the end'

        try:
            frame = next(frames)
        except StopIteration:
            return False

        if self.fail and self.fail['at'] == self.frames:
            SIM.fire('display_' + self.fail['exc'])
            raise EXC[self.fail['exc']](28, 'simulated: the frame cannot be shown')

        slept = SIM.sleeps
        self.check_artists(anim.func(frame))
        self.frames += 1
        self.idle = self.idle + 1 if SIM.sleeps > slept else 0

        if self.on_frame:
            self.on_frame(anim, self.recent)

        self.recent = []

        if self.frames > self.max_frames:
            raise Violation('stuck', f'more than {self.max_frames} frames')

        return True

    def show(self):
        'the window is open until it is closed or the animation is over'

        self.showed += 1

        for anim in self.anims:
            if self.real_anim:
                self.show_real(anim)
                continue

            self.check_artists(anim.init_func())
            frames = anim.new_frames()

            while True:
                if self.close_at is not None and self.frames >= self.close_at:
                    SIM.fire('display_closed_early')
                    return

                self.one_event(anim)

                # a patient user
                if self.idle > 3 and not self.events:
                    self.press('next')

                if not self.tick(anim, frames):
                    break

            # the window stays open for a while
            while self.events:
                self.one_event(anim)

    def show_real(self, anim):
        'as show(), but the library draws'

        anim.fig = anim._fig # pylint: disable=protected-access
        anim._start()        # pylint: disable=protected-access

        while True:
            if self.close_at is not None and self.frames >= self.close_at:
                SIM.fire('display_closed_early')
                break

            self.one_event(anim)

            if self.idle > 3 and not self.events:
                self.press('next')

            slept = SIM.sleeps

            if not anim._step(): # pylint: disable=protected-access
                break

            self.count('drawn_frame')
            self.frames += 1
            self.idle = self.idle + 1 if SIM.sleeps > slept else 0

            if self.on_frame:
                self.on_frame(anim, self.recent)

            self.recent = []

            if self.frames > self.max_frames:
                raise Violation('stuck', f'more than {self.max_frames} frames')

    def save(self, anim, filename, writer):
        'record a video'

        if writer is not None:
            with writer.saving(anim.fig, filename, 100):
                self.record(anim, writer)
            return

        if self.record(anim, None):
            self.images.append(filename)

    def record(self, anim, writer):
        'all frames of a video; returns True at the end'

        self.check_artists(anim.init_func())
        frames = itertools.islice(anim.new_frames(), anim.save_count)

        while True:
            if self.close_at is not None and self.frames >= self.close_at:
                SIM.fire('video_ended_early')
                return False

            self.one_event(anim)

            if not self.tick(anim, frames):
                return True

            if writer is not None:
                writer.grab_frame()

            self.recorded += 1

class quota:
    'context: no file can grow beyond a number of bytes (a full disk)'

    def __init__(self, size):
        self.size, self.old = size, None

    def __enter__(self):
        if self.size is not None:
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __exit__(self, kind, exc, _):
        if self.size is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)

            if exc is not None:
                SIM.fire('disk_full')

class SimWriter(animation.AbstractMovieWriter):
    'stands for the program which encodes videos: writes a line for each frame'

    def __init__(self, fps=5, codec=None, bitrate=None, extra_args=None, metadata=None):
        animation.AbstractMovieWriter.__init__(self, fps, metadata, codec, bitrate)
        self.extra_args = extra_args
        self.display = SIM.ui
        self.file = None
        self.lines = 0

    @classmethod
    def isAvailable(cls): # pylint: disable=invalid-name
        'is the program installed?'

        if SIM.ui.no_program:
            SIM.fire('program_missing')

        return not SIM.ui.no_program

    def fail(self, where, code):
        'injected failures'

        f = self.display.fail

        if f and f['at'] == where:
            SIM.fire('video_' + f['exc'])
            raise EXC[f['exc']](code, f'simulated: the video writer fails at {where}')

    def write(self, text):
        'to the file'

        with quota(self.display.quota):
            self.file.write(text)
            self.file.flush()

    def setup(self, fig, outfile, dpi=None):
        'start'

        animation.AbstractMovieWriter.setup(self, fig, outfile, dpi)
        self.fail('open', 2)
        self.file = open(outfile, 'w', encoding='ascii')
        self.write('video\n')

    def grab_frame(self, **_):
        'record a frame'

        self.fail(['grab', self.lines], 28)
        self.write(f'frame {self.lines}\n')
        self.lines += 1

        if self.display.on_grab:
            self.display.on_grab()

    def finish(self):
        'end'

        try:
            self.fail('close', 28)
            self.write('end\n')
            self.display.images.append(self.outfile)
        finally:
            try:
                self.file.close()
            except OSError:
                pass

class VideoWriters:
    'seam for the list of programs which encode videos'

    def __init__(self, orig):
        self.orig = orig

    def __getitem__(self, name):
        if not SIM.active or SIM.ui is None:
            return self.orig[name]
        if not SimWriter.isAvailable():
            raise RuntimeError(f'Requested MovieWriter ({name}) not available')

        return SimWriter

    def __getattr__(self, name):
        return getattr(self.orig, name)

class SimAnimation:
    'stands for matplotlib.animation.FuncAnimation'

    def __init__(self, fig, func, frames=None, init_func=None, fargs=None, save_count=None, **kwargs):
        self.fig, self.frames, self.init_func, self.save_count = fig, frames, init_func, save_count
        self.func = func if not fargs else lambda f: func(f, *fargs)
        self.kwargs = kwargs
        SIM.ui.anims.append(self)

        if self.init_func is None:
            self.init_func = lambda: []

    def new_frames(self):
        'new iterator over the frames'

        if callable(self.frames):
            return iter(self.frames())
        if self.frames is None:
            return itertools.count()

        return iter(self.frames)

    def save(self, filename, writer=None, **_):
        'record'
        SIM.ui.save(self, filename, writer)

def make_animation(*args, **kwargs):
    'seam'

    if SIM.active and SIM.ui is not None and not SIM.ui.real_anim:
        return SimAnimation(*args, **kwargs)

    anim = _RealAnimation(*args, **kwargs)

    if SIM.active and SIM.ui is not None:
        SIM.ui.anims.append(anim)

    return anim

class SimButton(_RealButton):
    'a button which the simulated user may press'

    def __init__(self, ax, label, *args, **kwargs):
        if SIM.active and SIM.ui is not None:
            self.sim_label = label
            SIM.ui.buttons.setdefault(label, [])
        else:
            self.sim_label = None

        _RealButton.__init__(self, ax, label, *args, **kwargs)

    def on_clicked(self, func):
        'register'

        if self.sim_label is not None:
            label, display, orig = self.sim_label, SIM.ui, func

            def func(event): # pylint: disable=function-redefined
                'note that it was really pressed'

                display.recent.append(label.lower())
                return orig(event)

            SIM.ui.buttons[self.sim_label].append(func)

        return _RealButton.on_clicked(self, func)

def show(*args, **kwargs):
    'seam'

    if SIM.active and SIM.ui is not None:
        return SIM.ui.show()

    return _real_show(*args, **kwargs)

def savefig(fname, *args, **kwargs):
    'seam'

    if not SIM.active or SIM.ui is None:
        return _real_savefig(fname, *args, **kwargs)

    ui = SIM.ui

    if ui.on_save:
        ui.on_save()

    if ui.fail and ui.fail['at'] == 'image':
        SIM.fire('image_' + ui.fail['exc'])
        raise EXC[ui.fail['exc']](28, f'simulated: cannot write {fname}')

    if ui.real_save:
        with quota(ui.quota):
            _real_savefig(fname, *args, **kwargs)

    ui.images.append(os.fspath(fname))
    return None

def tight_layout(*_args, **_kwargs):
    'seam: layout does not matter on the simulated display (and is slow)'

    if not SIM.active or SIM.ui is None:
        _real_tight(*_args, **_kwargs)

_real_tight = plt.tight_layout

def install():
    'before hylaa is imported'

    animation.FuncAnimation = make_animation
    widgets.Button = SimButton
    plt.show = show
    plt.savefig = savefig
    animation.writers = VideoWriters(animation.writers)
    plt.tight_layout = tight_layout
