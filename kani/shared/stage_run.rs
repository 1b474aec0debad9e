// Native only: runs one stage on one chunk of rows.
use crate::render::{Channels, ChannelsMut, RenderPipelineInOutStage, RenderPipelineInPlaceStage};
#[allow(unused_imports)]
use crate::verif::{vany, vrange};

/// Rows of one channel around a chunk; column 0 is the first of the border.
pub type Rows = Vec<Vec<f32>>;
const SLACK: usize = 80;

pub fn sample(kind: usize) -> f32 {
    match kind {
        0 => vrange(0, 2000) as f32 / 1000.0 - 0.5,
        1 => vrange(0, 1) as f32,
        2 => vrange(0, 60000) as f32 / 10.0 - 2000.0,
        3 => [0.0, 1.0, -1.0, 0.5, 1e-3, 255.0][vrange(0, 5)],
        _ => 0.5 + vrange(0, 20) as f32 / 1000.0,
    }
}
/// Neighbourhood of a chunk of `n` samples for a stage with this border.
pub fn around(n: usize, border: (usize, usize), kind: usize) -> Rows {
    (0..1 + 2 * border.1).map(|_| (0..n + 2 * border.0).map(|_| sample(kind)).collect()).collect()
}
/// The rows that a stage makes of those (`shape`: columns per sample and rows, of the output).
#[allow(unsafe_code)]
pub fn run_inout<S: RenderPipelineInOutStage<InputT = f32, OutputT = f32>>(stage: &S, pos: (usize, usize), n: usize, input: &[Rows]) -> Vec<Rows> {
    let padded: Vec<Rows> = input.iter().map(|c| c.iter().map(|r| r.iter().copied().chain((0..SLACK).map(|i| [9e9, -9e9][i % 2])).collect()).collect()).collect();
    let (fx, fy) = (1usize << S::SHIFT.0, 1usize << S::SHIFT.1);
    let mut out: Vec<Rows> = input.iter().map(|_| vec![vec![7.5; n * fx + SLACK * fx]; fy]).collect();
    let mut state = stage.init_local_state().unwrap();
    {
        let rows = padded.iter().flat_map(|c| c.iter().map(|r| &r[..])).collect::<Vec<&[f32]>>().into_iter().collect();
        let i = Channels::new(rows, input.len(), 1 + 2 * S::BORDER.1 as usize);
        let rows = out.iter_mut().flat_map(|c| c.iter_mut().map(|r| &mut r[..])).collect::<Vec<&mut [f32]>>().into_iter().collect();
        let mut o = ChannelsMut::new(rows, input.len(), fy);
        // A stage may be run several times with the same state.
        let first = if vrange(0, 3) == 0 { vrange(0, n) } else { n };
        stage.process_row_chunk(pos, first, &i, &mut o, state.as_deref_mut());
        if first < n {
            stage.process_row_chunk(pos, n, &i, &mut o, state.as_deref_mut());
        }
    }
    for c in out.iter_mut() {
        for r in c.iter_mut() {
            r.truncate(n * fx);
        }
    }
    out
}
pub fn run_inplace<S: RenderPipelineInPlaceStage<Type = f32>>(stage: &S, pos: (usize, usize), n: usize, rows: &[Vec<f32>]) -> Vec<Vec<f32>> {
    let mut padded: Vec<Vec<f32>> = rows.iter().map(|r| r.iter().copied().chain((0..SLACK).map(|i| [0.25, -0.5][i % 2])).collect()).collect();
    let mut state = stage.init_local_state().unwrap();
    {
        let mut v: Vec<&mut [f32]> = padded.iter_mut().map(|r| &mut r[..]).collect();
        stage.process_row_chunk(pos, n, &mut v, state.as_deref_mut());
    }
    for r in padded.iter_mut() {
        r.truncate(n);
    }
    padded
}
pub fn near(a: f32, b: f64, scale: f64) -> bool {
    (a as f64 - b).abs() <= 1e-5 * (scale + b.abs()) + 1e-12
}
