//! Stand-in for the native window: no window is opened; the simulator calls the program's update function.
pub use egui;
use std::cell::RefCell;
use std::fmt;

pub struct Frame {
    _private: (),
}
impl Frame {
    pub fn is_web(&self) -> bool {
        false
    }
}

#[derive(Clone, Default)]
pub struct NativeOptions {
    pub viewport: egui::ViewportBuilder,
    pub vsync: bool,
    pub multisampling: u16,
    pub depth_buffer: u8,
    pub stencil_buffer: u8,
    pub follow_system_theme: bool,
    pub run_and_return: bool,
    pub centered: bool,
    pub persist_window: bool,
}

#[derive(Debug)]
pub enum Error {
    /// no window could be opened
    NoWindow,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no window could be opened")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub trait App {
    fn update(&mut self, ctx: &egui::Context, frame: &mut Frame);
}
pub struct CreationContext {
    pub egui_ctx: egui::Context,
}
pub type AppCreator = Box<dyn FnOnce(&CreationContext) -> Box<dyn App>>;

pub mod sim {
    use super::*;
    pub type Update<'a> = &'a mut dyn FnMut(&egui::Context, &mut Frame);
    /// what the window system does with a program once it is running
    pub type Driver = Box<dyn FnOnce(egui::Context, Update)>;
    thread_local! {
        static DRIVER: RefCell<Option<Driver>> = const { RefCell::new(None) };
    }
    /// The next window opened by this thread is driven by `d`.
    pub fn install(d: Driver) {
        DRIVER.with(|x| *x.borrow_mut() = Some(d));
    }
    pub(crate) fn take() -> Option<Driver> {
        DRIVER.with(|x| x.borrow_mut().take())
    }
    pub fn frame() -> Frame {
        Frame { _private: () }
    }
}

pub fn run_simple_native(
    _app_name: &str,
    _native_options: NativeOptions,
    mut update_fun: impl FnMut(&egui::Context, &mut Frame) + 'static,
) -> Result<()> {
    let d = sim::take().ok_or(Error::NoWindow)?;
    d(egui::Context::default(), &mut update_fun);
    Ok(())
}

pub fn run_native(_app_name: &str, _native_options: NativeOptions, creator: AppCreator) -> Result<()> {
    let d = sim::take().ok_or(Error::NoWindow)?;
    let ctx = egui::Context::default();
    let mut app = creator(&CreationContext { egui_ctx: ctx.clone() });
    d(ctx, &mut |ctx, frame| app.update(ctx, frame));
    Ok(())
}
