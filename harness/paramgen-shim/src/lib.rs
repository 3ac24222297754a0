#![allow(non_snake_case)]
//! Plain vector-based matrices with the interface poseidon-paramgen expects.
pub mod v1 {
    use anyhow::{bail, Result};
    use ark_ff::PrimeField;
    pub use real::v1::{Alpha, RoundNumbers};

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Matrix<F> {
        n_rows: usize,
        n_cols: usize,
        elements: Vec<F>,
    }
    pub trait MatrixOperations<F> {
        fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self;
        fn elements(&self) -> &Vec<F>;
        fn n_rows(&self) -> usize;
        fn n_cols(&self) -> usize;
        fn get_element(&self, i: usize, j: usize) -> F;
        fn set_element(&mut self, i: usize, j: usize, v: F);
        fn transpose(&self) -> Self;
        fn rows(&self) -> Vec<&[F]>;
        fn iter_rows(&self) -> Vec<&[F]> {
            self.rows()
        }
        fn hadamard_product(&self, rhs: &Self) -> Result<Self>
        where
            Self: Sized,
            F: PrimeField,
        {
            if (self.n_rows(), self.n_cols()) != (rhs.n_rows(), rhs.n_cols()) {
                bail!("dimensions");
            }
            let e = self.elements().iter().zip(rhs.elements()).map(|(a, b)| *a * b).collect();
            Ok(Self::new(self.n_rows(), self.n_cols(), e))
        }
    }
    pub trait SquareMatrixOperations<F> {
        fn inverse(&self) -> Result<Self>
        where
            Self: Sized;
        fn identity(n: usize) -> Self;
        fn dim(&self) -> usize;
        fn determinant(&self) -> F;
    }
    impl<F: PrimeField> core::ops::Mul<F> for Matrix<F> {
        type Output = Matrix<F>;
        fn mul(self, k: F) -> Matrix<F> {
            Matrix { elements: self.elements.iter().map(|x| *x * k).collect(), ..self }
        }
    }
    pub fn square_mat_mul<F: PrimeField>(a: &SquareMatrix<F>, b: &SquareMatrix<F>) -> Result<SquareMatrix<F>> {
        Ok(SquareMatrix(product(&a.0, &b.0)?))
    }
    impl<F: PrimeField> Matrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> {
            Matrix::new(1, self.n_cols, self.elements[i * self.n_cols..(i + 1) * self.n_cols].to_vec())
        }
    }
    impl<F: PrimeField> MatrixOperations<F> for Matrix<F> {
        fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self {
            assert_eq!(elements.len(), n_rows * n_cols);
            Matrix { n_rows, n_cols, elements }
        }
        fn elements(&self) -> &Vec<F> {
            &self.elements
        }
        fn n_rows(&self) -> usize {
            self.n_rows
        }
        fn n_cols(&self) -> usize {
            self.n_cols
        }
        fn get_element(&self, i: usize, j: usize) -> F {
            assert!(i < self.n_rows && j < self.n_cols);
            self.elements[i * self.n_cols + j]
        }
        fn set_element(&mut self, i: usize, j: usize, v: F) {
            assert!(i < self.n_rows && j < self.n_cols);
            self.elements[i * self.n_cols + j] = v
        }
        fn transpose(&self) -> Self {
            let mut e = vec![];
            for j in 0..self.n_cols {
                for i in 0..self.n_rows {
                    e.push(self.get_element(i, j));
                }
            }
            Matrix::new(self.n_cols, self.n_rows, e)
        }
        fn rows(&self) -> Vec<&[F]> {
            self.elements.chunks(self.n_cols).collect()
        }
    }
    fn product<F: PrimeField, M: MatrixOperations<F>>(a: &M, b: &M) -> Result<M> {
        if a.n_cols() != b.n_rows() {
            bail!("dimensions");
        }
        let mut e = vec![];
        for i in 0..a.n_rows() {
            for j in 0..b.n_cols() {
                e.push((0..a.n_cols()).map(|k| a.get_element(i, k) * b.get_element(k, j)).sum());
            }
        }
        Ok(M::new(a.n_rows(), b.n_cols(), e))
    }
    /// Of two matrices of the same kind.
    #[cfg(not(feature = "bare-products"))]
    pub fn mat_mul<F: PrimeField, M: MatrixOperations<F>>(a: &M, b: &M) -> Result<M> {
        product(a, b)
    }
    /// One body in mds.rs takes a product for a matrix, the others for a result; a matrix with the methods
    /// of a result serves both.
    #[cfg(feature = "bare-products")]
    pub fn mat_mul<F: PrimeField, M: MatrixOperations<F>>(a: &M, b: &M) -> M {
        product(a, b).unwrap()
    }
    #[cfg(feature = "bare-products")]
    impl<F> Matrix<F> {
        pub fn expect(self, _: &str) -> Self {
            self
        }
        pub fn unwrap(self) -> Self {
            self
        }
    }
    #[cfg(feature = "bare-products")]
    impl<F> SquareMatrix<F> {
        pub fn expect(self, _: &str) -> Self {
            self
        }
        pub fn unwrap(self) -> Self {
            self
        }
    }
    macro_rules! wrapper {
        ($t:ident($inner:ty)) => {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct $t<F>(pub $inner);
            impl<F: PrimeField> MatrixOperations<F> for $t<F> {
                fn new(r: usize, c: usize, e: Vec<F>) -> Self {
                    $t(MatrixOperations::new(r, c, e))
                }
                fn elements(&self) -> &Vec<F> {
                    self.0.elements()
                }
                fn n_rows(&self) -> usize {
                    self.0.n_rows()
                }
                fn n_cols(&self) -> usize {
                    self.0.n_cols()
                }
                fn get_element(&self, i: usize, j: usize) -> F {
                    self.0.get_element(i, j)
                }
                fn set_element(&mut self, i: usize, j: usize, v: F) {
                    self.0.set_element(i, j, v)
                }
                fn transpose(&self) -> Self {
                    $t(self.0.transpose())
                }
                fn rows(&self) -> Vec<&[F]> {
                    self.0.rows()
                }
            }
            impl<F: PrimeField> From<$t<F>> for Vec<Vec<F>> {
                fn from(m: $t<F>) -> Self {
                    m.rows().into_iter().map(|r| r.to_vec()).collect()
                }
            }
        };
    }
    wrapper!(SquareMatrix(Matrix<F>));
    wrapper!(ArcMatrix(Matrix<F>));
    wrapper!(OptimizedArcMatrix(ArcMatrix<F>));
    wrapper!(MdsMatrix(SquareMatrix<F>));
    impl<F: PrimeField> SquareMatrix<F> {
        pub fn from_vec(e: Vec<F>) -> Self {
            let n = (0..).find(|n| n * n >= e.len()).unwrap();
            SquareMatrix(Matrix::new(n, n, e))
        }
        pub fn row_vector(&self, i: usize) -> Matrix<F> {
            self.0.row_vector(i)
        }
    }
    impl<F: PrimeField> ArcMatrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> {
            self.0.row_vector(i)
        }
    }
    impl<F: PrimeField> MdsMatrix<F> {
        fn part(&self, rows: core::ops::Range<usize>, cols: core::ops::Range<usize>) -> Matrix<F> {
            let e = rows.clone().flat_map(|i| cols.clone().map(move |j| (i, j))).map(|(i, j)| self.get_element(i, j)).collect();
            Matrix::new(rows.len(), cols.len(), e)
        }
        /// The first row without its first element.
        pub fn v(&self) -> Matrix<F> {
            self.part(0..1, 1..self.n_cols())
        }
        /// The first column without its first element.
        pub fn w(&self) -> Matrix<F> {
            self.part(1..self.n_rows(), 0..1)
        }
        /// Without first row and column.
        pub fn hat(&self) -> SquareMatrix<F> {
            SquareMatrix(self.part(1..self.n_rows(), 1..self.n_cols()))
        }
        pub fn inverse(&self) -> SquareMatrix<F> {
            self.0.inverse().expect("all well-formed MDS matrices should have inverses")
        }
    }
    impl<F: PrimeField> SquareMatrixOperations<F> for SquareMatrix<F> {
        fn identity(n: usize) -> Self {
            let mut m = SquareMatrix::new(n, n, vec![F::zero(); n * n]);
            for i in 0..n {
                m.set_element(i, i, F::one());
            }
            m
        }
        fn dim(&self) -> usize {
            self.n_rows()
        }
        fn determinant(&self) -> F {
            let mut a: Vec<Vec<F>> = self.clone().into();
            let (n, mut d) = (self.n_rows(), F::one());
            for c in 0..n {
                let Some(p) = (c..n).find(|r| !a[*r][c].is_zero()) else { return F::zero() };
                if p != c {
                    a.swap(p, c);
                    d = -d;
                }
                d *= a[c][c];
                let k = a[c][c].inverse().unwrap();
                for r in c + 1..n {
                    let f = a[r][c] * k;
                    for j in c..n {
                        let x = a[c][j];
                        a[r][j] -= f * x;
                    }
                }
            }
            d
        }
        fn inverse(&self) -> Result<Self> {
            let n = self.n_rows();
            let mut a: Vec<Vec<F>> = self.clone().into();
            let mut b: Vec<Vec<F>> = SquareMatrix::identity(n).into();
            for c in 0..n {
                let Some(p) = (c..n).find(|r| !a[*r][c].is_zero()) else { bail!("singular") };
                a.swap(p, c);
                b.swap(p, c);
                let k = a[c][c].inverse().unwrap();
                for j in 0..n {
                    a[c][j] *= k;
                    b[c][j] *= k;
                }
                for r in 0..n {
                    if r != c {
                        let f = a[r][c];
                        for j in 0..n {
                            let (x, y) = (a[c][j], b[c][j]);
                            a[r][j] -= f * x;
                            b[r][j] -= f * y;
                        }
                    }
                }
            }
            Ok(SquareMatrix::from_vec(b.concat()))
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct OptimizedMdsMatrices<F: PrimeField> {
        pub M_hat: SquareMatrix<F>,
        pub v: Matrix<F>,
        pub w: Matrix<F>,
        pub M_prime: SquareMatrix<F>,
        pub M_doubleprime: SquareMatrix<F>,
        pub M_inverse: SquareMatrix<F>,
        pub M_hat_inverse: SquareMatrix<F>,
        pub M_00: F,
        pub M_i: Matrix<F>,
        pub v_collection: Vec<Matrix<F>>,
        pub w_hat_collection: Vec<Matrix<F>>,
    }
    #[derive(Clone, Debug)]
    pub struct PoseidonParameters<F: PrimeField> {
        pub M: usize,
        pub alpha: Alpha,
        pub rounds: RoundNumbers,
        pub mds: MdsMatrix<F>,
        pub arc: ArcMatrix<F>,
        pub optimized_mds: OptimizedMdsMatrices<F>,
        pub optimized_arc: OptimizedArcMatrix<F>,
    }
    /// The width was a field of the older parameters; some code reads it, none sets it.
    pub struct Width {
        pub t: usize,
    }
    static WIDTHS: [Width; 64] = {
        let mut w = [const { Width { t: 0 } }; 64];
        let mut i = 0;
        while i < 64 {
            w[i].t = i;
            i += 1;
        }
        w
    };
    impl<F: PrimeField> core::ops::Deref for PoseidonParameters<F> {
        type Target = Width;
        fn deref(&self) -> &Width {
            &WIDTHS[self.mds.n_rows()]
        }
    }
}
pub mod v2 {
    pub use super::v1::{Alpha, ArcMatrix, Matrix, MatrixOperations, RoundNumbers, SquareMatrix, SquareMatrixOperations};
    #[derive(Clone, Debug)]
    pub struct PoseidonParameters<F> {
        pub M: usize,
        pub alpha: Alpha,
        pub rounds: RoundNumbers,
        pub m_e: SquareMatrix<F>,
        pub m_i: SquareMatrix<F>,
        pub arc: ArcMatrix<F>,
    }
}
