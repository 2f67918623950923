use std::sync::Arc;

use crate::common::errors::E::{L, R};
use crate::common::submission::{self, SubmissionId};
use crate::common::{MaxSubmissions, StrategicMetadataMap};
use crate::db::{self, DBPools};
use crate::tracing::anyhow_as_dyn_error;
use axum::extract;
use axum::extract::{Path, State};
use axum::http::StatusCode;
use axum::response::{IntoResponse, Response};
use axum::routing::{get, post};
use axum::{Json, Router};
use tokio::sync::Notify;

use super::common::{ChunkContents, InsertSubmission};

pub async fn serve_for_tests(database_pool: DBPools, server_addr: Box<str>) {
    let max_submissions = crate::config::Config::default().max_submissions_returned;
    ServerState::new(database_pool, Arc::new(Notify::new()), max_submissions)
        .serve_for_tests(server_addr)
        .await;
}

#[derive(Debug, Clone)]
pub struct ServerState {
    pool: DBPools,
    notify_on_insert: Arc<Notify>,
    max_submissions: MaxSubmissions,
}

impl ServerState {
    pub fn new(
        pool: DBPools,
        notify_on_insert: Arc<Notify>,
        max_submissions: MaxSubmissions,
    ) -> Self {
        ServerState {
            pool,
            notify_on_insert,
            max_submissions,
        }
    }

    /// Run a test-only producer HTTP server.
    ///
    /// # Panics
    ///
    /// Panics if binding the server socket fails or if serving fails unexpectedly.
    pub async fn serve_for_tests(self, server_addr: Box<str>) {
        let app = Router::new().nest("/producer", self.build_router());

        let listener = tokio::net::TcpListener::bind(&*server_addr)
            .await
            .expect("Failed to bind to producer server address");

        tracing::info!("Producer HTTP server listening at {server_addr}...");
        axum::serve(listener, app)
            .await
            .expect("Failed to start producer server");
    }

    pub fn build_router(self) -> Router<()> {
        Router::new()
            .route("/submissions", post(insert_submission))
            .route(
                "/submissions/cancel/{submission_id}",
                post(cancel_submission),
            )
            .route(
                "/submissions/count_completed",
                get(submissions_count_completed),
            )
            .route("/submissions/count", get(submissions_count))
            .route(
                "/submissions/lookup_id_by_prefix/{prefix}",
                get(lookup_submission_id_by_prefix),
            )
            .route(
                "/submissions/lookup_ids_by_strategic_metadata",
                post(lookup_submission_ids_by_strategic_metadata),
            )
            .route("/submissions/{submission_id}", get(submission_status))
            .route("/version", get(crate::server::version_endpoint)) // We're also exposing it here so the producer client can view it
            .with_state(self)
    }
}

// Make our own error that wraps `anyhow::Error`.
struct ServerError(anyhow::Error);

impl IntoResponse for ServerError {
    fn into_response(self) -> Response {
        tracing::error!(
            error = anyhow_as_dyn_error(&self.0),
            "Producer Server Error"
        );

        (
            StatusCode::INTERNAL_SERVER_ERROR,
            Json(format!("{:?}", self.0)),
        )
            .into_response()
    }
}

impl<E> From<E> for ServerError
where
    E: Into<anyhow::Error>,
{
    fn from(err: E) -> Self {
        Self(err.into())
    }
}

/// 200 if the submission was successfully cancelled.
/// 404 if the submission could not be found.
/// 409 if the submission could not be cancelled.
/// 500 if a `DatabaseError` occurred.
async fn cancel_submission(
    State(state): State<ServerState>,
    Path(submission_id): Path<SubmissionId>,
) -> Result<(), Response> {
    let mut conn = state
        .pool
        .writer_conn()
        .await
        .map_err(|e| ServerError(e.into()).into_response())?;
    match submission::db::cancel_submission(submission_id, &mut conn).await {
        Ok(()) => Ok(()),
        Err(L(db_err)) => Err(ServerError(db_err.into()).into_response()),
        Err(R(L(not_found_err))) => {
            Err((StatusCode::NOT_FOUND, Json(not_found_err)).into_response())
        }
        Err(R(R(not_cancellable_err))) => {
            Err((StatusCode::CONFLICT, Json(not_cancellable_err)).into_response())
        }
    }
}

async fn submission_status(
    State(state): State<ServerState>,
    Path(submission_id): Path<SubmissionId>,
) -> Result<Json<Option<submission::SubmissionStatus>>, ServerError> {
    let mut conn = state.pool.reader_conn().await?;
    let status = submission::db::submission_status(submission_id, &mut conn).await?;
    Ok(Json(status))
}

async fn lookup_submission_id_by_prefix(
    State(state): State<ServerState>,
    Path(prefix): Path<String>,
) -> Result<Json<Option<SubmissionId>>, ServerError> {
    let mut conn = state.pool.reader_conn().await?;
    let submission_id = submission::db::lookup_id_by_prefix(&prefix, &mut conn).await?;
    Ok(Json(submission_id))
}

/// 200 if the query was successful.
/// 400 if the query exceeded the maximum lookup amount.
async fn lookup_submission_ids_by_strategic_metadata(
    State(state): State<ServerState>,
    extract::Json(strategic_metadata): extract::Json<StrategicMetadataMap>,
) -> Result<Json<Vec<SubmissionId>>, Response> {
    let mut conn = state
        .pool
        .reader_conn()
        .await
        .map_err(|e| ServerError(e.into()).into_response())?;
    match submission::db::lookup_ids_by_strategic_metadata(
        strategic_metadata,
        state.max_submissions,
        &mut conn,
    )
    .await
    {
        Ok(submission_ids) => Ok(Json(submission_ids)),
        Err(L(db_err)) => Err(ServerError(db_err.into()).into_response()),
        Err(R(too_many_err)) => Err((StatusCode::BAD_REQUEST, Json(too_many_err)).into_response()),
    }
}

#[tracing::instrument(level = "debug", skip(state))]
async fn insert_submission(
    State(state): State<ServerState>,
    Json(request): Json<InsertSubmission>,
) -> Result<Json<SubmissionId>, ServerError> {
    let mut conn = state.pool.writer_conn().await?;
    let (prefix, chunk_contents) = match request.chunk_contents {
        ChunkContents::Direct { contents } => (None, contents),
        ChunkContents::SeeObjectStorage { prefix, count } => {
            let count = u64::from(count);
            (Some(prefix), (0..count).map(|_index| None).collect())
        }
    };
    let submission_id = submission::db::insert_submission_from_chunks(
        prefix,
        chunk_contents,
        request.metadata,
        request.strategic_metadata,
        request.chunk_size.unwrap_or_default(),
        &mut conn,
    )
    .await?;

    // As we already have access to the write checkpoint
    // and submission inserts result in large DB mutations from time to time
    // this is the moment to perform an extra WAL checkpoint
    let _ = db::perform_explicit_wal_checkpoint(conn).await;

    // We've done a new insert! Let's tell any waiting consumers!
    state.notify_on_insert.notify_waiters();

    Ok(Json(submission_id))
}

#[derive(Debug, serde::Serialize, serde::Deserialize)]
pub struct InsertSubmissionResponse {
    pub id: SubmissionId,
}

async fn submissions_count(State(state): State<ServerState>) -> Result<Json<u64>, ServerError> {
    let mut conn = state.pool.reader_conn().await?;
    let count = submission::db::count_submissions(&mut conn).await?;
    Ok(Json(u64::from(count)))
}

async fn submissions_count_completed(
    State(state): State<ServerState>,
) -> Result<Json<u64>, ServerError> {
    let mut conn = state.pool.reader_conn().await?;
    let count = submission::db::count_submissions_completed(&mut conn).await?;
    Ok(Json(u64::from(count)))
}
