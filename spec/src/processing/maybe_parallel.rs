pub fn process_maybe_parallel_for_each<'a, T, I, A>(items: I, action: A, _hint_do_parallel: bool)
where
    T: 'a,
    I: Iterator<Item = T>,
    A: Fn(I::Item),
{
    items.for_each(action);
}

pub fn process_maybe_parallel_map_collect<'a, T, I, A, R>(
    items: I,
    action: A,
    _hint_do_parallel: bool,
) -> Vec<R>
where
    T: 'a,
    I: Iterator<Item = T>,
    A: Fn(I::Item) -> R,
{
    items.map(action).collect()
}
