use super::{backward, forward};
use crate::processing::{process_maybe_parallel_for_each, OverlappingChunksIterator};

pub fn lift_linear(image: &mut [&mut [i16]]) {
    forward(image, row_forward, columns_forward);
}

pub fn unlift_linear(image: &mut [&mut [i16]]) {
    backward(image, row_backward, columns_backward);
}

/// row[x] += (row[x - step] + row[x + step]) / (2 * divider) for x = first, first + 2 step, ...;
/// without right neighbour the left one alone over divider
fn row_pass(row: &mut [i16], step: usize, first: usize, divider: i16) {
    let mut x = first;
    while x < row.len() - step {
        let sum = row[x - step] + row[x + step];
        row[x] += sum / (2 * divider);
        x += 2 * step;
    }
    if x < row.len() {
        row[x] += (i32::from(row[x - step]) / i32::from(divider)) as i16;
    }
}

fn row_forward(row: &mut [i16], step: usize) {
    row_pass(row, step, step, -1);
    row_pass(row, step, 2 * step, 2);
}

fn row_backward(row: &mut [i16], step: usize) {
    row_pass(row, step, 2 * step, -2);
    row_pass(row, step, step, 1);
}

/// odd rows of the lattice += (row above + row below) / divider, the row above twice at the end
fn column_pass(image: &mut [&mut [i16]], step: usize, divider: i16) {
    process_maybe_parallel_for_each(
        OverlappingChunksIterator::from_slice(image, step),
        |(above, current, below)| {
            let mut x = 0;
            while x < current[0].len() {
                let a = above[0][x];
                let b = if below.is_empty() { a } else { below[0][x] };
                current[0][x] += (a + b) / divider;
                x += step;
            }
        },
        false,
    );
}

fn columns_forward(image: &mut [&mut [i16]], step: usize) {
    column_pass(image, step, -2);
    column_pass(&mut image[step..], step, 4);
}

fn columns_backward(image: &mut [&mut [i16]], step: usize) {
    column_pass(&mut image[step..], step, -4);
    column_pass(image, step, 2);
}
