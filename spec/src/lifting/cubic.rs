use super::{backward, forward};
use crate::processing::{process_maybe_parallel_for_each, DoubleOverlappingChunksIterator};

pub fn lift_cubic(image: &mut [&mut [i16]]) {
    forward(image, row_forward, columns_forward);
}

pub fn unlift_cubic(image: &mut [&mut [i16]]) {
    backward(image, row_backward, columns_backward);
}

/// row[x] += cubic(c0, c1, c2, c3) / divider along x = first, first + 2 step, ... where c1, c2
/// are the neighbours at distance step and c0, c3 those at distance 3 step; the missing ones
/// repeat their inner neighbour
fn row_pass(row: &mut [i16], step: usize, start: usize, third: usize, first: usize, divider: i32) {
    let n = row.len();
    let mut c0 = row[start];
    let mut c1 = c0;
    let mut c2 = if third < n { row[third] } else { c0 };
    let mut x = first;
    if 3 * step < n {
        while x < n - 3 * step {
            let c3 = row[x + 3 * step];
            row[x] += (cubic(c0, c1, c2, c3) / divider) as i16;
            c0 = c1;
            c1 = c2;
            c2 = c3;
            x += 2 * step;
        }
    }
    while x < n {
        row[x] += (cubic(c0, c1, c2, c2) / divider) as i16;
        c0 = c1;
        c1 = c2;
        x += 2 * step;
    }
}

fn row_forward(row: &mut [i16], step: usize) {
    row_pass(row, step, 0, 2 * step, step, -1);
    row_pass(row, step, step, 3 * step, 2 * step, 2);
}

fn row_backward(row: &mut [i16], step: usize) {
    row_pass(row, step, step, 3 * step, 2 * step, -2);
    row_pass(row, step, 0, 2 * step, step, 1);
}

fn column_pass(image: &mut [&mut [i16]], step: usize, divider: i32) {
    process_maybe_parallel_for_each(
        DoubleOverlappingChunksIterator::from_slice(image, step),
        |rows| {
            let mut x = 0;
            while x < rows.middle[0].len() {
                let c1 = rows.left[0][x];
                let c2 = if rows.right.is_empty() { c1 } else { rows.right[0][x] };
                let c0 = if rows.prev_left.is_empty() { c1 } else { rows.prev_left[0][x] };
                let c3 = if rows.next_right.is_empty() { c2 } else { rows.next_right[0][x] };
                rows.middle[0][x] += (cubic(c0, c1, c2, c3) / divider) as i16;
                x += step;
            }
        },
        false,
    );
}

fn columns_forward(image: &mut [&mut [i16]], step: usize) {
    column_pass(image, step, -1);
    column_pass(&mut image[step..], step, 2);
}

fn columns_backward(image: &mut [&mut [i16]], step: usize) {
    column_pass(&mut image[step..], step, -2);
    column_pass(image, step, 1);
}

/// (-c0 + 9 c1 + 9 c2 - c3) / 16 rounded half away from zero, clamped between c1 and c2
pub fn cubic(c0: i16, c1: i16, c2: i16, c3: i16) -> i32 {
    let (c0, c1, c2, c3) = (i32::from(c0), i32::from(c1), i32::from(c2), i32::from(c3));
    let sum = 9 * (c1 + c2) - c0 - c3;
    let v = if sum < 0 { (sum - 8) / 16 } else { (sum + 8) / 16 };
    v.min(c1.max(c2)).max(c1.min(c2))
}
