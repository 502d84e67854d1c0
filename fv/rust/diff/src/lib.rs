pub enum Result<T> { Left(T), Both(T, T), Right(T) }
pub fn lines<'a>(left: &'a str, right: &'a str) -> Vec<Result<&'a str>> {
    left.lines().map(Result::Left).chain(right.lines().map(Result::Right)).collect()
}
