DROP TABLE chunks_metadata;
