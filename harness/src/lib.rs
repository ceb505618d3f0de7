pub mod cli;
pub mod engine;
pub mod facts;
pub mod gengrow;
pub mod gensem;
pub mod gensyn;
pub mod model;
pub mod props;
pub mod real;
pub mod refparse;
pub mod sem;
pub mod tape;
pub mod textgen;
pub mod writer;
